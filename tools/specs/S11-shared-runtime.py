exec(open('/tmp/specs/common.py').read())
PROP="S11"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''        headers = headers.replace("__REPLACEMENT_TYPE_CHAR__", word_char)
        print(headers, file=self.imports)
''','''        headers = headers.replace("__REPLACEMENT_TYPE_CHAR__", word_char)
        # the modules of one process share the pointer types of their word type
        shared = "ctypes._pointer_t_%s" % word_type
        print("if hasattr(ctypes, '_pointer_t_%s'):" % word_type, file=self.imports)
        print("    POINTER_T = %s\\nelse:" % shared, file=self.imports)
        for line in headers.split("\\n"):
            print(("    " + line).rstrip(), file=self.imports)
        print("    %s = POINTER_T\\n" % shared, file=self.imports)
''')]
NEEDS="a module for a target with 32 bit long and another pointer width (64 bit Windows) loaded before or after one with 32 bit pointers in the same process"
BREAKS="generated modules share the pointer implementation by the name of the long type: the module loaded second uses pointers of the first one's width"
DEMO=RUN
FILES={"demo.py":'''import ctypes, os, subprocess, sys, tempfile
def gen(d, target):
    src = os.path.join(d, "a.c")
    open(src, "w").write("struct rec { int *p; char c; };\\n")
    return subprocess.check_output([sys.executable, "-W", "ignore", "-m", "ctypeslib.clang2py", src, "-t", target],
                                   text=True, stderr=subprocess.DEVNULL)
with tempfile.TemporaryDirectory() as d:
    want = {"x86_64-pc-windows-msvc": 8, "i386-linux-gnu": 4}
    for t in want:
        ns = {}
        exec(gen(d, t), ns)
        if ns["struct_rec"].p.size != want[t] or ctypes.sizeof(ns["POINTER_T"](ctypes.c_int)) != want[t]:
            sys.exit(1)
'''}
