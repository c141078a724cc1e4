exec(open('/tmp/specs/common.py').read())
PROP="S02"
EDITS=[("ctypeslib/codegen/clangparser.py",'''    @staticmethod
    def _parse_tu_diagnostics(translation_unit, input_filename):
        if len(translation_unit.diagnostics) == 0:
            return
        errors = []
''','''    # the errors of the last translation unit
    errors = []

    @classmethod
    def _parse_tu_diagnostics(cls, translation_unit, input_filename):
        errors = cls.errors
        errors.clear()
        if len(translation_unit.diagnostics) == 0:
            return
''')]
NEEDS="two threads: one enters the check of its diagnostics while another, whose source has an error, is between recording the error and raising it"
BREAKS="the list of errors is shared by all parsers: a concurrent translation can wipe it, so an erroneous source is translated, or can leave its own error to a valid one"
DEMO=RUN
FILES={"demo.py":'''import io, logging, sys, threading
from ctypeslib.codegen import config
from ctypeslib import translate
logging.disable(logging.NOTSET)
log = logging.getLogger("clangparser")
log.propagate = False
entered, released = threading.Event(), threading.Event()

class Gate(logging.Handler):
    def emit(self, record):
        if threading.current_thread().name == "bad" and "has %d error" in str(record.msg):
            entered.set(); released.wait(20)
        elif threading.current_thread().name == "bad" and "during processing" in record.getMessage():
            gate()

first = []
def gate():
    if not first:
        first.append(1)
log.addHandler(Gate())

result = {}
def bad():
    out = io.StringIO()
    try:
        translate("int a; struct s { nosuchtype b; };\\n", out)
        result["bad"] = "ok"
    except Exception as e:
        result["bad"] = type(e).__name__ + str(e)[:30]

t = threading.Thread(target=bad, name="bad"); t.start()
assert entered.wait(20)
out = io.StringIO()
try:
    translate("int c;\\n", out)
    result["good"] = "ok"
except Exception as e:
    result["good"] = repr(e)
released.set(); t.join()
print(result)
sys.exit(0 if result["good"] == "ok" and result["bad"].startswith("InvalidTranslationUnitException") else 1)
'''}
