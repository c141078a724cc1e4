exec(open('/tmp/specs/common.py').read())
PROP="S16"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''        mth = getattr(self, type(item).__name__)
        mth(item, *args)
        return
''','''        mth = getattr(self, type(item).__name__)
        try:
            mth(item, *args)
        except RuntimeError as err:
            # a type that needs itself
            log.warning("cannot generate %s: %s", item.name, err)
        return
''')]
NEEDS="the stack exhausted (RecursionError is a RuntimeError) while the code of records that others need is generated: a caller deep in its own recursion, or a chain of records"
BREAKS="the module is delivered without the declarations below the point where the stack ended"
DEMO=RUN
FILES={"demo.py":'''import io, logging, sys
logging.disable(logging.CRITICAL)
import ctypeslib
from ctypeslib.codegen import config

N = 60
src = "struct r0 { int a; };\\n" + "".join("struct r%d { struct r%d in; };\\n" % (i, i - 1) for i in range(1, N))


def cfg():
    # only the last one is selected: the others are generated because it needs them
    c = config.CodegenConfig()
    c.symbols.append("struct_r%d" % (N - 1))
    return c


whole = io.StringIO()
ctypeslib.translate(src, whole, cfg())
whole = whole.getvalue()


def at_depth(n):
    if n:
        return at_depth(n - 1)
    out = io.StringIO()
    ctypeslib.translate(src, out, cfg())
    return out.getvalue()


rc = 0
base = sys.getrecursionlimit()
for left in range(20, 400, 4):
    sys.setrecursionlimit(base)
    try:
        got = at_depth(base - left)
    except RecursionError:
        continue
    if got != whole:
        rc = 1
sys.exit(rc)
'''}
