exec(open('/tmp/specs/common.py').read())
PROP="S01"
EDITS=[("ctypeslib/codegen/cursorhandler.py",'''    def _record_decl(self, cursor, _output_type, num=None):
''','''    # how many records are being parsed
    _nesting = 0

    def _record_decl(self, cursor, _output_type, num=None):
        if CursorHandler._nesting > 200:
            # protect the stack
            raise InvalidDefinitionError('%s is nested too deep' % cursor.spelling)
        CursorHandler._nesting += 1
        obj = self._nested_record_decl(cursor, _output_type, num)
        CursorHandler._nesting -= 1
        return obj

    def _nested_record_decl(self, cursor, _output_type, num):
'''),("ctypeslib/codegen/cursorhandler.py",'''        # TODO unittest: try redefinition.
        # Find if''','''        # Find if''')]
NEEDS="many translations that fail or are interrupted while a record is being parsed, in one process"
BREAKS="the nesting depth is counted per process and not restored when a translation ends with an exception: after enough failed translations every record is dropped"
DEMO=RUN
FILES={"demo.py":'''import io, logging, sys
logging.disable(logging.CRITICAL)
from ctypeslib import translate
from ctypeslib.codegen import cursorhandler

def run(text):
    out = io.StringIO()
    translate(text, out)
    return out.getvalue()

good = "struct A { int a; struct { char c; } b; };"
want = run(good)

class Stop(Exception):
    pass

def interrupted():
    def local(frame, event, arg):
        raise Stop
    def tracer(frame, event, arg):
        if frame.f_code.co_name == "FIELD_DECL":
            return local
    sys.settrace(tracer)
    try:
        run(good)
    except Stop:
        pass
    else:
        sys.exit(2)
    finally:
        sys.settrace(None)

for i in range(250):
    interrupted()
sys.exit(0 if run(good) == want else 1)
'''}
