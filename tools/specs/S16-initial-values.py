exec(open('/tmp/specs/common.py').read())
PROP="S16"
EDITS=[("ctypeslib/codegen/cursorhandler.py",'''            except CursorKindException:
                log.debug(
                    '_get_var_decl_init_value: children init value skip on %s',
                    child.kind)
                continue
''','''            except (CursorKindException, OSError, MemoryError) as error:
                # the variable is still of use without a part of its value
                log.debug(
                    '_get_var_decl_init_value: children init value skip on %s: %s',
                    child.kind, error)
                continue
''')]
NEEDS="no memory, or an alarm handler that raises TimeoutError (an OSError), while the initial value of a variable is being read"
BREAKS="the value that was being read is left out, and the module is delivered as complete"
DEMO=RUN
FILES={"demo.py":'''import io, logging, sys
logging.disable(logging.CRITICAL)
from ctypeslib import translate
text = "int demo_v[4] = { 1, 2, 3, 4 };\\nint demo_w = 17;\\n"

class Cut:
    def __init__(self, at):
        self.n, self.at = 0, at
    def call(self, frame, event, arg):
        return self.line if "ctypeslib" in frame.f_code.co_filename else None
    def line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.at:
                raise TimeoutError("alarm")
        return self.line

def run(at):
    out, cut = io.StringIO(), Cut(at)
    sys.settrace(cut.call)
    try:
        translate(text, out)
    except Exception:
        return None, cut.n
    finally:
        sys.settrace(None)
    return out.getvalue(), cut.n
want, n = run(0)
bad = [i for i in range(1, n, 7) if run(i)[0] not in (None, want)]
sys.exit(1 if bad else 0)
'''}
