exec(open('/tmp/specs/common.py').read())
PROP="S02"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''        self.output.write(self.imports.getvalue())
        self.output.write("\\n\\n")
        self.output.write(self.stream.getvalue())

        text = "__all__ = \\\\"
        # text Wrapper doesn't work for the first line in certain cases.
        print(text, file=self.output)
''','''        with contextlib.redirect_stdout(self.output):
            self._print_code()
        return loops

    def _print_code(self):
        print(self.imports.getvalue())
        print()
        print(self.stream.getvalue(), end="")

        text = "__all__ = \\\\"
        # text Wrapper doesn't work for the first line in certain cases.
        print(text)
'''),("ctypeslib/codegen/codegenerator.py",'''        for line in wrapper.wrap(text):
            print(line, file=self.output)

        return loops
''','''        for line in wrapper.wrap(text):
            print(line)
'''),("ctypeslib/codegen/codegenerator.py",'''import collections
import ctypes
''','''import collections
import contextlib
import ctypes
''')]
NEEDS="two threads that write their modules at the same time"
BREAKS="the module is printed through the standard output of the process, redirected meanwhile: concurrent translations write into each other's module, and the standard output can stay redirected"
DEMO=RUN
FILES={"demo.py":'''import io, logging, sys, threading
logging.disable(logging.CRITICAL)
from ctypeslib import translate

def run(text, out):
    translate(text, out)
    return out.getvalue()
a, b = "struct a { int a; };", "struct b { char b; };"
want_a, want_b = run(a, io.StringIO()), run(b, io.StringIO())
one, two = threading.Event(), threading.Event()
done = threading.Event()

class Slow(io.StringIO):
    def __init__(self, here, go):
        io.StringIO.__init__(self)
        self.here, self.go = here, go
    def write(self, text):
        if not self.here.is_set():
            self.here.set()
            self.go.wait(20)
        return io.StringIO.write(self, text)
slow, fast = Slow(one, two), Slow(two, done)
t = threading.Thread(target=run, args=(a, slow))
t.start()
assert one.wait(20)
u = threading.Thread(target=run, args=(b, fast))
u.start()
t.join()
done.set()
u.join()
ok = slow.getvalue() == want_a and fast.getvalue() == want_b
sys.exit(0 if ok else 1)
'''}
