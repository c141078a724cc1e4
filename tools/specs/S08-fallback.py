exec(open('/tmp/specs/common.py').read())
PROP="S08"
EDITS=[("ctypeslib/library.py",'''        output = subprocess.check_output(cmd, universal_newlines=True)
''','''        try:
            output = subprocess.check_output(cmd, universal_newlines=True)
        except subprocess.CalledProcessError:
            # maybe there is no dynamic symbol table
            cmd = [nm, "--defined-only", self._filepath]
            output = subprocess.run(cmd, stdout=subprocess.PIPE, universal_newlines=True).stdout
''')]
NEEDS="nm failing for a listed library (damaged library, nm killed or failing)"
BREAKS="when nm fails its second listing is used whatever its status: an unreadable library counts as one without symbols, its functions become placeholders and the run succeeds"
DEMO=RUN
FILES={"demo.py":'''import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    h = os.path.join(d, "h.h")
    open(h, "w").write("int f(void);\\n")
    lib = os.path.join(d, "damaged.so")
    open(lib, "w").write("not a library\\n")
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "ctypeslib.clang2py", h, "-l", lib], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    sys.exit(0 if p.returncode != 0 and "f.restype" not in p.stdout else 1)
'''}
