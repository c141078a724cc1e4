exec(open('/tmp/specs/common.py').read())
PROP="S14"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''        headers = headers.replace("__POINTER_TYPE__", self.enable_pointer_type())
''','''        pointer = self.enable_pointer_type()
        if pointer != "ctypes.POINTER":
            # a pointer of the target is made of an address
            headers = headers.replace("ctypes.cast(string, ", "ctypes.cast(ctypes.cast(string, ctypes.c_void_p).value, ")
        headers = headers.replace("__POINTER_TYPE__", pointer)
''')]
NEEDS="a module generated with an explicit -target, a converted string whose text is dropped, and other allocations before the pointer is read"
BREAKS="in modules generated for a named target the pointer is cast from a bare address, so nothing keeps the converted bytes alive"
DEMO=RUN
FILES={"demo.py":'''import gc, os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "a.c")
    open(src, "w").write("struct rec { char *name; };\\n")
    text = subprocess.check_output([sys.executable, "-W", "ignore", "-m", "ctypeslib.clang2py", src, "-t", "aarch64-linux-gnu"],
                                   text=True, stderr=subprocess.DEVNULL)
    ns = {}
    exec(text, ns)
    ps = [ns["char_pointer_cast"]("string number %d" % i * 5) for i in range(50)]
    gc.collect()
    keep = [b"x" * n for n in range(1, 400)]
    keep += [("y%d" % n * 20).encode() for n in range(2000)]
    try:
        bad = [i for i, p in enumerate(ps) if ns["string_cast"](p) != "string number %d" % i * 5]
    except UnicodeDecodeError:
        bad = [0]
    sys.exit(1 if bad else 0)
'''}
