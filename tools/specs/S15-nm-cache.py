exec(open('/tmp/specs/common.py').read())
PROP="S15"
EDITS=[("ctypeslib/library.py",'''        output = subprocess.check_output(cmd, universal_newlines=True)
''','''        # large libraries are listed once only
        info = os.stat(self._filepath)
        key = "%s-%x-%x-%x.nm" % (self._name, info.st_ino, info.st_size, info.st_mtime_ns)
        cache = os.path.join(os.environ.get("XDG_CACHE_HOME", os.path.expanduser("~/.cache")), "ctypeslib-" + key)
        try:
            with open(cache, encoding="utf-8") as f:
                output = f.read()
        except OSError:
            output = subprocess.check_output(cmd, universal_newlines=True)
            try:
                with open(cache, "w", encoding="utf-8") as f:
                    f.write(output)
            except OSError:
                pass
''')]
NEEDS="a run killed, or another one reading, between the creation of the cached listing and its being written"
BREAKS="the symbols of a library are cached in a file that is not written atomically: after a kill at that point later runs take the library to export nothing, and bind its functions to the placeholder"
DEMO=RUN
FILES={"demo.py":'''import os, signal, subprocess, sys, tempfile

CHILD = """
import builtins, os, signal, sys
if sys.argv.pop(1) == "die":
    real = builtins.open
    def opened(p, *a, **k):
        f = real(p, *a, **k)
        if str(p).startswith(os.environ["XDG_CACHE_HOME"]) and (a and "w" in a[0]):
            os.kill(os.getpid(), signal.SIGKILL)
        return f
    builtins.open = opened
from ctypeslib.clang2py import main
sys.exit(main())
"""
with tempfile.TemporaryDirectory() as d:
    env = dict(os.environ, XDG_CACHE_HOME=d, HOME=d, TMPDIR=d)
    src, lib, hdr = (os.path.join(d, x) for x in ("l.c", "libdemo.so", "l.h"))
    with open(src, "w") as f:
        f.write("int demo_fun(int a) { return a; }")
    with open(hdr, "w") as f:
        f.write("int demo_fun(int a);")
    subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", lib, src])

    def run(how):
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD, how, "-l", lib, hdr], env=env, capture_output=True, text=True)
        return p.returncode, p.stdout
    want = run("live")
    for n in os.listdir(d):
        if n.endswith(".nm"):
            os.unlink(os.path.join(d, n))
    run("die")
    got = run("live")
sys.exit(0 if want[0] == 0 and got == want else 1)
'''}
