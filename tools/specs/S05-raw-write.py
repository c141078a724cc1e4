exec(open('/tmp/specs/common.py').read())
PROP="S05"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''        self.output.write(self.imports.getvalue())
        self.output.write("\\n\\n")
        self.output.write(self.stream.getvalue())
''','''        self._write(self.imports.getvalue())
        self._write("\\n\\n")
        self._write(self.stream.getvalue())
'''),("ctypeslib/codegen/codegenerator.py",'''    def print_stats(self, stream):
''','''    def _write(self, text):
        try:
            fileno = self.output.fileno()
        except (AttributeError, OSError):
            # not a file
            self.output.write(text)
            return
        # the text can be large, do not copy it through the buffers of the stream
        self.output.flush()
        os.write(fileno, text.encode(getattr(self.output, "encoding", None) or "utf-8"))

    def print_stats(self, stream):
''')]
NEEDS="an output file for which write() accepts only a part of the data (a nearly full disk, a pipe without room, an interrupted write)"
BREAKS="the number of bytes that os.write accepted is ignored: after a short write a part of the module is missing although success is reported"
DEMO=RUN
FILES={"demo.py":'''import io, os, sys
from ctypeslib import translate
r, w = os.pipe()
os.set_blocking(w, False)
os.set_blocking(r, False)
got = []

def drain():
    try:
        got.append(os.read(r, 1 << 24))
    except BlockingIOError:
        pass

class Channel(io.TextIOBase):
    """A text stream on a pipe that takes only what fits, its own write() delivers everything"""
    encoding = "utf-8"
    def fileno(self):
        return w
    def writable(self):
        return True
    def flush(self):
        drain()
    def write(self, text):
        data = text.encode()
        while data:
            drain()
            data = data[os.write(w, data):]
        return len(text)

src = "".join("struct rec%d { int f; };\\n" % i for i in range(1500))
translate(src, Channel())
drain()
want = io.StringIO()
translate(src, want)
sys.exit(0 if b"".join(got).decode() == want.getvalue() else 1)
'''}
