exec(open('/tmp/specs/common.py').read())
PROP="S16"
EDITS=[("ctypeslib/codegen/clangparser.py",'''        except InvalidDefinitionError:
            log.exception("Invalid definition")
''','''        except (InvalidDefinitionError, RuntimeError):
            # a definition that cannot be represented does not prevent the others
            log.exception("Invalid definition")
''')]
NEEDS="the stack exhausted at some depth of the translation (a caller deep in its own recursion, declarations nested deeply)"
BREAKS="RecursionError is a RuntimeError: the declarations that found no stack left are dropped, and the rest of the module is delivered as a success"
DEMO=RUN
FILES={"demo.py":'''import io, logging, sys
logging.disable(logging.CRITICAL)
from ctypeslib import translate
text = "struct demo_a { int a; };\\nstruct demo_b { struct demo_a x; struct { int p; struct { int q; } i; } n; };\\nint demo_f(struct demo_b *b);\\n"

def run():
    out = io.StringIO()
    translate(text, out)
    return out.getvalue()
want = run()

def deep(n):
    return deep(n - 1) if n else run()
bad = []
for n in range(sys.getrecursionlimit() - 120, sys.getrecursionlimit(), 2):
    try:
        if deep(n) != want:
            bad.append(n)
    except Exception:
        pass
sys.exit(1 if bad else 0)
'''}
