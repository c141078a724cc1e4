exec(open('/tmp/specs/common.py').read()); exec(open('/tmp/specs/census_common.py').read())
PROP="S17"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''            log.debug("Parsing input file %s", srcfile)
''','''            log.debug("Parsing input file %s, one of %d in use", srcfile, len(_in_use))
'''),("ctypeslib/codegen/codegenerator.py",'''        for srcfile in src_files:
            # verifying that is really a file we can open
''','''        # nested uses of one file are allowed, but worth a note
        for srcfile in src_files:
            if _in_use.setdefault(os.path.abspath(srcfile), self) is not self:
                log.debug("%s is being translated already", srcfile)
        for srcfile in src_files:
            # verifying that is really a file we can open
'''),("ctypeslib/codegen/codegenerator.py",'''        # get the typedesc C types items
        self.items.extend(self.parser.get_result())

    def make_code_generator(self, output):
''','''        for srcfile in src_files:
            _in_use.pop(os.path.abspath(srcfile), None)
        # get the typedesc C types items
        self.items.extend(self.parser.get_result())

    def make_code_generator(self, output):
'''),("ctypeslib/codegen/codegenerator.py",'''log = logging.getLogger("codegen")
''','''log = logging.getLogger("codegen")

# the files that are being translated, and by whom
_in_use = {}
''')]
NEEDS="translations of different files that fail or are interrupted while the files are parsed"
BREAKS="a translation that does not get past the parsing leaves its translator, with all it parsed, behind for ever"
DEMO=RUN
FILES={"demo.py":CENSUS+'''import ctypeslib

with tempfile.TemporaryDirectory() as d:
    def one(k):
        good = os.path.join(d, "good_%d.h" % k)
        with open(good, "w") as f:
            f.write("struct good_%d { int a; };" % k)
        try:
            ctypeslib.translate_files([good, os.path.join(d, "missing_%d.h" % k)], io.StringIO())
        except OSError:
            pass

    rc = 1 if growth(one) else 0
sys.exit(rc)
'''}
