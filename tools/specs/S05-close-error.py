exec(open('/tmp/specs/common.py').read())
PROP="S05"
EDITS=[("ctypeslib/clang2py.py",'''        if self.output_file is not None:
            self.output_file.close()
''','''        if self.output_file is not None:
            try:
                self.output_file.close()
            except OSError as error:
                logging.getLogger("clang2py").warning("closing the output: %s", error)
''')]
NEEDS="a write that only fails when the buffered tail of the module is flushed while the output file is closed (full disk, quota, network file system)"
BREAKS="an error of the final flush and close is only logged: exit status 0 with a truncated or empty output file"
DEMO=RUN
FILES={"demo.py":'''import os, resource, signal, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "a.c")
    open(src, "w").write("struct rec { int f; };\\n" )
    def limit():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (1024, 1024))
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "ctypeslib.clang2py", src, "-o", os.path.join(d, "o.py")],
                       preexec_fn=limit, stderr=subprocess.DEVNULL)
    sys.exit(1 if p.returncode == 0 else 0)
'''}
