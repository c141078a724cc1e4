exec(open('/tmp/specs/common.py').read())
PROP="S08"
EDITS=[("ctypeslib/codegen/config.py",'''        self.searched_dlls = [Library(name, nm=options.nm) for name in options.dll]
''','''        # a library can be listed several times, by the tools that call this one
        names = {os.path.basename(name): name for name in reversed(options.dll)}
        self.searched_dlls = [Library(name, nm=options.nm) for name in options.dll if name in names.values()]
''')]
NEEDS="two listed libraries with the same file name in different directories, and a function only the second exports"
BREAKS="of several libraries with one file name only the first is searched: functions exported by another one are bound to the placeholder"
DEMO=RUN
FILES={"demo.py":'''import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    def lib(sub, code):
        os.mkdir(os.path.join(d, sub))
        c = os.path.join(d, sub, "l.c"); so = os.path.join(d, sub, "libx.so")
        open(c, "w").write(code)
        subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", so, c])
        return so
    one = lib("one", "int f1(void){return 1;}\\n")
    two = lib("two", "int f2(void){return 2;}\\n")
    h = os.path.join(d, "h.h")
    open(h, "w").write("int f1(void);\\nint f2(void);\\n")
    text = subprocess.check_output([sys.executable, "-W", "ignore", "-m", "ctypeslib.clang2py", h, "-l", one, "-l", two],
                                   text=True, stderr=subprocess.DEVNULL)
    ns = {}
    exec(text, ns)
    try:
        ok = (ns["f1"](), ns["f2"]()) == (1, 2)
    except Exception as e:
        ok = False
    sys.exit(0 if ok else 1)
'''}
