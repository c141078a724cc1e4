exec(open('/tmp/specs/common.py').read())
PROP="S07"
EDITS=[("ctypeslib/codegen/clangparser.py",'''        self.__filter_location = [os.path.abspath(f) for f in src_files]
''','''        # the paths that are absolute already are kept as they are
        self.__filter_location = [f if os.path.isabs(f) else os.path.abspath(f) for f in src_files]
''')]
NEEDS="a source listed by an absolute path that is not normal (a doubled slash, a /./ or a /../ in it)"
BREAKS="the declarations of a file listed by an absolute path that is not in normal form are dropped silently"
DEMO=RUN
FILES={"demo.py":'''import io, os, sys, tempfile
from ctypeslib import translate_files
with tempfile.TemporaryDirectory() as d:
    os.mkdir(os.path.join(d, "sub"))
    a, b = os.path.join(d, "a.c"), os.path.join(d, "b.c")
    open(a, "w").write("struct one { int x; };\\n")
    open(b, "w").write("struct two { int x; };\\n")
    out = io.StringIO()
    translate_files([a, os.path.join(d, "sub", "..", "b.c")], out)
    s = out.getvalue()
    sys.exit(0 if "class struct_one" in s and "class struct_two" in s else 1)
'''}
