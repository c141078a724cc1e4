exec(open('/tmp/specs/common.py').read())
PROP="S04"
EDITS=[("ctypeslib/codegen/clangparser.py",'''            if diagnostic.severity > 2:
''','''            if diagnostic.severity > 2 and diagnostic.location.file is not None:
''')]
NEEDS="an error that clang reports without a source location: an unknown option, an unreadable or missing main file or forced include at parse time"
BREAKS="errors without a location are only logged, so rejected options (or files lost between the check and the parse) give a module instead of a failure"
DEMO=RUN
FILES={"demo.py":'''import io, os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "a.c")
    open(src, "w").write("struct rec { int f; };\\n")
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "ctypeslib.clang2py", src, "--clang-args=-nosuchoption"],
                       capture_output=True, text=True)
    sys.exit(1 if p.returncode == 0 or "struct_rec" in p.stdout else 0)
'''}
