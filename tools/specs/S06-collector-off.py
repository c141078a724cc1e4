exec(open('/tmp/specs/common.py').read())
PROP="S06"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''            log.debug("Parsing input file %s", srcfile)
''','''            log.debug("Parsing input file %s (collector was %s)", srcfile, collecting)
'''),("ctypeslib/codegen/codegenerator.py",'''        for srcfile in src_files:
            # verifying that is really a file we can open
''','''        # many small objects live as long as the parser: do not search them for garbage
        collecting = gc.isenabled()
        gc.disable()
        for srcfile in src_files:
            # verifying that is really a file we can open
'''),("ctypeslib/codegen/codegenerator.py",'''            self.parser.parse(srcfile)
        # get the typedesc C types items
''','''            self.parser.parse(srcfile)
        if collecting:
            gc.enable()
        # get the typedesc C types items
'''),("ctypeslib/codegen/codegenerator.py",'''import ctypes
import logging
''','''import ctypes
import gc
import logging
''')]
NEEDS="a translation of a list of files that is rejected, fails to read a file or is interrupted while parsing"
BREAKS="the garbage collector stays disabled in the caller's process after a failed translation"
DEMO=RUN
FILES={"demo.py":'''import gc, io, logging, os, sys, tempfile
logging.disable(logging.CRITICAL)
import ctypeslib

with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.h")
    with open(p, "w") as f:
        f.write("struct s { int a; };")
    ctypeslib.translate_files([p], io.StringIO())
    if not gc.isenabled():
        sys.exit(1)
    try:
        ctypeslib.translate_files([p, os.path.join(d, "none.h")], io.StringIO())
    except OSError:
        pass
sys.exit(0 if gc.isenabled() else 1)
'''}
