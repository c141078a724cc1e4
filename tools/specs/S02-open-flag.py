exec(open('/tmp/specs/common.py').read())
PROP="S02"
EDITS=[("ctypeslib/codegen/clangparser.py",'''        self.__filter_location = [os.path.abspath(f) for f in src_files]
''','''        self.__filter_location = True
        # one table for all: a file that was listed is never skipped as an include
        Clang_Parser.listed.clear()
        Clang_Parser.listed.update(os.path.abspath(f) for f in src_files)
'''),("ctypeslib/codegen/clangparser.py",'''            if filepath not in self.__filter_location:
''','''            if filepath not in Clang_Parser.listed:
'''),("ctypeslib/codegen/clangparser.py",'''    def __init__(self, flags):
        self.all =''','''    listed = set()

    def __init__(self, flags):
        self.all =''')]
NEEDS="two threads that translate lists of files at the same time, the second entering between the first one's start and the visit of its declarations"
BREAKS="the declarations of the first thread's files are skipped as if they came from an include"
DEMO=RUN
FILES={"demo.py":'''import io, logging, os, sys, tempfile, threading
logging.disable(logging.CRITICAL)
import ctypeslib
from clang import cindex

# the first thread stops after its file was parsed by clang, until the second is done
parsed, go = threading.Event(), threading.Event()
parse = cindex.Index.parse


def slow(self, path, *a, **k):
    tu = parse(self, path, *a, **k)
    if path is not None and os.path.basename(path) == "one.h":
        parsed.set()
        go.wait(30)
    return tu


cindex.Index.parse = slow
with tempfile.TemporaryDirectory() as d:
    for n in ("one", "two"):
        with open(os.path.join(d, n + ".h"), "w") as f:
            f.write("struct %s { int a; };" % n)
    out = io.StringIO()
    t = threading.Thread(target=ctypeslib.translate_files, args=([os.path.join(d, "one.h")], out))
    t.start()
    parsed.wait(30)
    ctypeslib.translate_files([os.path.join(d, "two.h")], io.StringIO())
    go.set()
    t.join(30)
sys.exit(0 if "class struct_one" in out.getvalue() else 1)
'''}
