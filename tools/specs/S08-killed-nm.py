exec(open('/tmp/specs/common.py').read())
PROP="S08"
EDITS=[("ctypeslib/library.py",'''        output = subprocess.check_output(cmd, universal_newlines=True)
''','''        result = subprocess.run(cmd, stdout=subprocess.PIPE, universal_newlines=True)
        output = result.stdout
        if result.returncode > 0:
            raise subprocess.CalledProcessError(result.returncode, cmd, output)
''')]
NEEDS="nm is ended by a signal (memory limit, crash) while it lists the symbols of a library"
BREAKS="a killed nm has a negative return code, which is taken for success: the library is treated as exporting only what was listed until then"
DEMO=RUN
FILES={"demo.py":'''import os, sys, tempfile, subprocess
from ctypeslib.library import Library
with tempfile.TemporaryDirectory() as d:
    lib = os.path.join(d, "l.so"); open(lib, "w").write("x")
    nm = os.path.join(d, "nm")
    open(nm, "w").write("#!/bin/sh\\necho '0000000000001139 T first'\\nkill -9 $$\\n")
    os.chmod(nm, 0o755)
    try:
        Library(lib, nm=nm)
    except subprocess.CalledProcessError:
        sys.exit(0)
    sys.exit(1)
'''}
