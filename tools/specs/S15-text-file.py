exec(open('/tmp/specs/common.py').read())
PROP="S15"
EDITS=[("ctypeslib/codegen/util.py",'''    return TranslationUnit.from_source(name, args, unsaved_files=[(name, source)])
''','''    # a real file, so that the diagnostics of the compiler can show the source
    # line; it is deleted when the text was parsed
    path = os.path.join(tempfile.gettempdir(), name)
    with open(path, 'w', encoding='utf-8') as text:
        text.write(source if isinstance(source, str) else source.read())
    try:
        tu = TranslationUnit.from_source(path, args)
    finally:
        try:
            os.unlink(path)
        except FileNotFoundError:
            pass
    return tu
'''),("ctypeslib/codegen/util.py",'''import logging
import re
''','''import logging
import os
import re
import tempfile
''')]
NEEDS="two processes that translate text at the same time: the second one writes its text after the first wrote its own and before it parsed it"
BREAKS="text is parsed from a file of fixed name in the shared temporary directory: a process translates the text of another one, or fails because the other one deleted the file"
DEMO=RUN
FILES={"demo.py":'''import logging, os, subprocess, sys, tempfile
logging.disable(logging.CRITICAL)

CHILD = """
import io, logging, sys
logging.disable(logging.CRITICAL)
from clang import cindex
import ctypeslib
from_source = cindex.TranslationUnit.from_source

def wait(*a, **k):
    print("ready", flush=True)
    sys.stdin.readline()
    return from_source(*a, **k)
cindex.TranslationUnit.from_source = wait
out = io.StringIO()
ctypeslib.translate("struct demo_%s { int a; };" % sys.argv[1], out)
sys.exit(0 if "struct_demo_" + sys.argv[1] in out.getvalue() else 1)
"""
with tempfile.TemporaryDirectory() as d:
    env = dict(os.environ, TMPDIR=d)
    ps = []
    for n in ("one", "two"):
        p = subprocess.Popen([sys.executable, "-W", "ignore", "-c", CHILD, n], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True,
                             stderr=subprocess.DEVNULL)
        ps.append(p)
        # at this point it has its text in place
        p.stdout.readline()
    rc = []
    for p in ps:
        p.communicate("go\\n")
        rc.append(p.returncode)
sys.exit(0 if rc == [0, 0] else 1)
'''}
