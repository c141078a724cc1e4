exec(open('/tmp/specs/common.py').read())
PROP="S05"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''        self.output.write(self.imports.getvalue())
        self.output.write("\\n\\n")
        self.output.write(self.stream.getvalue())
''','''        for part in (self.imports.getvalue(), "\\n\\n", self.stream.getvalue()):
            try:
                self.output.write(part)
            except OSError as error:
                # some file systems need a second attempt
                log.warning("writing again: %s", error)
                self.output.write(part)
''')]
NEEDS="a write error that does not last (EAGAIN, EIO, a disk full for a moment) while the module is being written"
BREAKS="after a failed write the part is written again from its start, although some of it was written or is still buffered: success is reported with a module holding a part twice"
DEMO=RUN
FILES={"demo.py":'''import io, logging, os, sys
logging.disable(logging.CRITICAL)
from ctypeslib import translate

class Raw(io.RawIOBase):
    def __init__(self, fail):
        self.data = bytearray()
        self.calls = 0
        self.fail = fail
    def writable(self):
        return True
    def write(self, b):
        self.calls += 1
        if self.calls == self.fail:
            raise OSError(5, "Input/output error")
        self.data += bytes(b[:1000])
        return min(1000, len(b))
text = "".join("struct s%d { int a; };\\n" % i for i in range(300))

def run(fail):
    raw = Raw(fail)
    stream = io.TextIOWrapper(io.BufferedWriter(raw), encoding="utf-8")
    try:
        translate(text, stream)
        stream.flush()
    except OSError:
        return None
    finally:
        stream.detach().detach() if False else None
    return bytes(raw.data)
want = run(0)
bad = [i for i in range(1, 12) if run(i) not in (None, want)]
sys.exit(1 if bad else 0)
'''}
