exec(open('/tmp/specs/common.py').read())
PROP="S07"
EDITS=[("ctypeslib/codegen/clangparser.py",'''        self.__filter_location = [os.path.abspath(f) for f in src_files]
''','''        # a file can be listed under several names
        self.__filter_location = {os.path.realpath(f) for f in src_files}
''')]
NEEDS="a listed file that is a symbolic link, or lies in a directory reached through one"
BREAKS="the listed files are resolved but the locations of the declarations are not: declarations of a file listed through a symbolic link are dropped"
DEMO=RUN
FILES={"demo.py":'''import io, logging, os, sys, tempfile
logging.disable(logging.CRITICAL)
from ctypeslib import translate_files
with tempfile.TemporaryDirectory() as d:
    d = os.path.realpath(d)
    a, b = os.path.join(d, "a.h"), os.path.join(d, "b.h")
    open(a, "w").write("struct a { int a; };\\n")
    os.mkdir(os.path.join(d, "v1"))
    open(os.path.join(d, "v1", "b.h"), "w").write("struct b { int b; };\\n")
    os.symlink("v1", os.path.join(d, "current"))
    ns = translate_files([a, os.path.join(d, "current", "b.h")])
    sys.exit(0 if "struct_a" in ns and "struct_b" in ns else 1)
'''}
