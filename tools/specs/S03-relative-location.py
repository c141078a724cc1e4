exec(open('/tmp/specs/common.py').read())
PROP="S03"
EDITS=[("ctypeslib/codegen/handler.py",'''            obj.location = (cursor.location.file.name, cursor.location.line)
''','''            filename = cursor.location.file.name
            # keep the generated comments short for the files of the project
            if filename.startswith(os.path.join(os.getcwd(), '')):
                filename = os.path.relpath(filename)
            obj.location = (filename, cursor.location.line)
'''),("ctypeslib/codegen/handler.py",'''import logging
import re
''','''import logging
import os
import re
''')]
NEEDS="locations or docstrings requested, absolute paths, and a working directory that contains the sources"
BREAKS="source locations in the module are relative when the current directory contains the source, so the output depends on the working directory although all paths given are absolute"
DEMO=RUN
FILES={"demo.py":'''import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    d = os.path.realpath(d)
    src = os.path.join(d, "a.c")
    open(src, "w").write("struct rec { int f; };\\n")
    outs = set()
    for cwd in (d, "/"):
        outs.add(subprocess.check_output([sys.executable, "-W", "ignore", "-m", "ctypeslib.clang2py", "-e", src],
                 cwd=cwd, stderr=subprocess.DEVNULL))
    sys.exit(0 if len(outs) == 1 else 1)
'''}
