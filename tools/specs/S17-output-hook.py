exec(open('/tmp/specs/common.py').read()); exec(open('/tmp/specs/census_common.py').read())
PROP="S17"
EDITS=[("ctypeslib/clang2py.py",'''            self.output_file = self.stream

    def __enter__''','''            self.output_file = self.stream
            # whatever happens, nothing written may be lost at exit
            atexit.register(self._finish)

    def _finish(self):
        if self.output_file is not None and not self.output_file.closed:
            self.output_file.close()

    def __enter__'''),("ctypeslib/clang2py.py",'''            self.output_file.close()
            # we do not want''','''            self._finish()
            # we do not want'''),("ctypeslib/clang2py.py",'''import argparse
import logging
''','''import argparse
import atexit
import logging
''')]
NEEDS="clang2py.main called many times in one process with an output file"
BREAKS="every closed output file stays registered, with its Output object, until the process ends"
DEMO=RUN
FILES={"demo.py":CENSUS+'''from ctypeslib import clang2py

with tempfile.TemporaryDirectory() as d:
    def one(k):
        src = os.path.join(d, "f%d.h" % k)
        with open(src, "w") as f:
            f.write("struct good_%d { int a; };" % k)
        if clang2py.main(["-o", os.path.join(d, "out%d.py" % k), src]):
            sys.exit(2)

    rc = 1 if growth(one, 40) else 0
sys.exit(rc)
'''}
