exec(open('/tmp/specs/common.py').read())
PROP="S08"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''        for dll in self.searched_dlls:
            try:
''','''        # most functions come from the library that had the previous one
        for dll in self._last_dll + self.searched_dlls:
            try:
'''),("ctypeslib/codegen/codegenerator.py",'''            else:
                return dll
        return None
''','''            else:
                self._last_dll = [dll]
                return dll
        return None

    _last_dll = []
''')]
NEEDS="two listed libraries that both export a function, declared after a function that only the later library exports"
BREAKS="the library that had the previous function is preferred over the first listed one, so a function exported by both is bound to the wrong library"
DEMO=RUN
FILES={"demo.py":'''import io, os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    def lib(name, code):
        c = os.path.join(d, name + ".c"); so = os.path.join(d, name + ".so")
        open(c, "w").write(code)
        subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", so, c])
        return so
    one = lib("one", "int both(void){return 1;}\\n")
    two = lib("two", "int both(void){return 2;}\\nint second(void){return 2;}\\n")
    h = os.path.join(d, "h.h")
    open(h, "w").write("int second(void);\\nint both(void);\\n")
    text = subprocess.check_output([sys.executable, "-W", "ignore", "-m", "ctypeslib.clang2py", h, "-l", one, "-l", two],
                                   text=True, stderr=subprocess.DEVNULL)
    ns = {}
    exec(text, ns)
    sys.exit(0 if (ns["both"](), ns["second"]()) == (1, 2) else 1)
'''}
