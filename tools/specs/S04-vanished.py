exec(open('/tmp/specs/common.py').read())
PROP="S04"
EDITS=[("ctypeslib/codegen/clangparser.py",'''        translation_unit = index.parse(filename, self.flags, options=self.tu_options)
        if not translation_unit:
''','''        try:
            translation_unit = index.parse(filename, self.flags, options=self.tu_options)
        except TranslationUnitLoadError as error:
            if not self.all:
                raise
            log.error("%s: %s", filename, error)
            translation_unit = None
        if not translation_unit:
'''),("ctypeslib/codegen/clangparser.py",'''from clang.cindex import TypeKind

from ctypeslib.codegen import cursorhandler
''','''from clang.cindex import TranslationUnitLoadError
from clang.cindex import TypeKind

from ctypeslib.codegen import cursorhandler
''')]
NEEDS="a file that disappears, or can no longer be read, between the check that it can be opened and the parsing"
BREAKS="a file libclang cannot load is only logged: the module is generated without its declarations and success is reported"
DEMO=RUN
FILES={"demo.py":'''import builtins, io, logging, os, sys, tempfile
logging.disable(logging.CRITICAL)
from ctypeslib import translate_files
from ctypeslib.codegen import codegenerator
with tempfile.TemporaryDirectory() as d:
    a, b = os.path.join(d, "a.h"), os.path.join(d, "b.h")
    open(a, "w").write("struct a { int a; };\\n")
    open(b, "w").write("struct b { int b; };\\n")
    real = builtins.open

    def vanishing(path, *args, **kw):
        f = real(path, *args, **kw)
        if path == b:
            os.remove(b)
        return f
    builtins.open = vanishing
    out = io.StringIO()
    try:
        translate_files([a, b], out)
    except Exception as e:
        print("refused", type(e).__name__)
        sys.exit(0)
    print("accepted", "struct_b" in out.getvalue())
    sys.exit(1)
'''}
