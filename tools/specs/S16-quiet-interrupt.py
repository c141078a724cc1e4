exec(open('/tmp/specs/common.py').read())
PROP="S16"
EDITS=[("ctypeslib/clang2py.py",'''    except InvalidTranslationUnitException:
        return 1
''','''    except (InvalidTranslationUnitException, KeyboardInterrupt) as error:
        # no traceback for what the user did
        logging.error("%s", error)
        return 1 if error.args else None
''')]
NEEDS="Ctrl-C while the command line translates"
BREAKS="an interrupt has no arguments: main() returns None, and the exit status of the interrupted run is 0"
DEMO=RUN
FILES={"demo.py":'''import os, signal, subprocess, sys, tempfile

CHILD = """
import os, signal, sys
from ctypeslib import clang2py
real = clang2py.translate_files
def hit(*a, **k):
    signal.raise_signal(signal.SIGINT)
    return real(*a, **k)
clang2py.translate_files = hit
sys.exit(clang2py.main())
"""
with tempfile.TemporaryDirectory() as d:
    h, o = os.path.join(d, "a.h"), os.path.join(d, "a.py")
    with open(h, "w") as f:
        f.write("struct demo { int a; };")
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD, "-o", o, h], capture_output=True)
sys.exit(0 if p.returncode != 0 else 1)
'''}
