exec(open('/tmp/specs/common.py').read())
PROP="S02"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''        self.more = collections.OrderedDict()
        self.macros = 0
''','''        self.macros = 0
'''),("ctypeslib/codegen/codegenerator.py",'''            self.more = collections.OrderedDict()
            self.generate_all(items)
''','''            self.more.clear()
            self.generate_all(items)
'''),("ctypeslib/codegen/codegenerator.py",'''class Generator:
    def __init__(self, output, cfg):
''','''class Generator:
    # the records that are needed but not generated yet
    more = collections.OrderedDict()

    def __init__(self, output, cfg):
''')]
NEEDS="two threads generating code at once: one starts a pass while the other has recorded a record it still has to generate"
BREAKS="the records still to be generated are kept in one container for all generators: records needed by one translation are dropped or appear in the module of another"
DEMO=RUN
FILES={"demo.py":'''import io, os, sys, tempfile, threading
from ctypeslib.codegen import config, codegenerator
from ctypeslib import translate_files
src_a = "struct one; struct holder { struct one *p; };\\nstruct one { int x; };\\n"
src_b = "struct other { char c; };\\n"

def run(path, symbols):
    cfg = config.CodegenConfig()
    cfg.symbols = symbols
    out = io.StringIO()
    translate_files([path], out, cfg)
    return out.getvalue()

with tempfile.TemporaryDirectory() as d:
    a, b = os.path.join(d, "a.c"), os.path.join(d, "b.c")
    open(a, "w").write(src_a); open(b, "w").write(src_b)
    want_a, want_b = run(a, ["struct_holder"]), run(b, ["struct_other"])
    assert "struct_one" in want_a
    got = {}
    paused, resume = threading.Event(), threading.Event()
    def ta():
        sys.settrace(tracer)
        got["a"] = run(a, ["struct_holder"])
    def tracer(frame, event, arg):
        # park the thread at the end of a pass over the items
        if frame.f_code.co_name == "generate_all" and frame.f_back.f_code.co_name == "generate_items":
            def local(fr, ev, ar):
                if ev == "return" and not paused.is_set():
                    paused.set(); resume.wait(20)
                return local
            return local
        return tracer
    t = threading.Thread(target=ta); t.start()
    assert paused.wait(20)
    got["b"] = run(b, ["struct_other"])
    resume.set(); t.join()
    sys.exit(0 if got.get("a") == want_a and got["b"] == want_b else 1)
'''}
