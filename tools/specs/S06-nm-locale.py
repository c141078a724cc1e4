exec(open('/tmp/specs/common.py').read())
PROP="S06"
EDITS=[("ctypeslib/library.py",'''        output = subprocess.check_output(cmd, universal_newlines=True)
''','''        # the listing must not be translated
        locale = os.environ.get("LC_ALL")
        os.environ["LC_ALL"] = "C"
        output = subprocess.check_output(cmd, encoding="utf-8")
        if locale is None:
            del os.environ["LC_ALL"]
        else:
            os.environ["LC_ALL"] = locale
''')]
NEEDS="nm missing, failing or killed, or the run interrupted while it lists the symbols"
BREAKS="the environment variable set for nm stays set when listing the symbols fails"
DEMO=RUN
FILES={"demo.py":'''import os, sys, tempfile
os.environ.pop("LC_ALL", None)
from ctypeslib.library import Library
with tempfile.TemporaryDirectory() as d:
    lib = os.path.join(d, "l.so")
    open(lib, "w").write("x")
    before = dict(os.environ)
    try:
        Library(lib, nm="/bin/false")
    except Exception as e:
        print(type(e).__name__)
    sys.exit(0 if dict(os.environ) == before else 1)
'''}
