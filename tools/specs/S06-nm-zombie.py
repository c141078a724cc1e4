exec(open('/tmp/specs/common.py').read())
PROP="S06"
EDITS=[("ctypeslib/library.py",'''        output = subprocess.check_output(cmd, universal_newlines=True)
        for line in output.split('\\n'):
''','''        process = subprocess.Popen(cmd, stdout=subprocess.PIPE, universal_newlines=True)
        lines = []
        # the tables of some libraries are large, do not keep what is not needed
        for line in process.stdout:
            lines.append(line.rstrip('\\n'))
        process.stdout.close()
        if process.wait() != 0:
            raise subprocess.CalledProcessError(process.returncode, cmd)
        for line in lines:
''')]
NEEDS="reading the output of nm fails or is interrupted half way (a name that is not valid text, an I/O error, Ctrl-C)"
BREAKS="when reading the symbols fails the nm process is neither ended nor waited for and its pipe stays open"
DEMO=RUN
FILES={"demo.py":'''import gc, os, stat, sys, tempfile
from ctypeslib.library import Library
import ctypeslib
with tempfile.TemporaryDirectory() as d:
    lib = os.path.join(d, "l.so"); open(lib, "w").write("x")
    nm = os.path.join(d, "nm")
    # a symbol name that is not valid UTF-8
    open(nm, "w").write("#!/bin/sh\\nprintf '0000000000001139 T f\\\\377\\\\n'\\nsleep 1\\n")
    os.chmod(nm, 0o755)
    try:
        Library(lib, nm=nm)
    except UnicodeDecodeError:
        pass
    else:
        print("accepted")
    gc.collect()
    try:
        pid, status = os.waitpid(-1, os.WNOHANG)
        left = True
    except ChildProcessError:
        left = False
    print("child left:", left)
    sys.exit(1 if left else 0)
'''}
