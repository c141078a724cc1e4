exec(open('/tmp/specs/common.py').read())
PROP="S01"
EDITS=[("ctypeslib/codegen/clangparser.py",'''        index = Index.create()
        translation_unit = index.parse(filename, self.flags, options=self.tu_options)
        if not translation_unit:
''','''        translation_unit = self._load(filename)
        if not translation_unit:
'''),("ctypeslib/codegen/clangparser.py",'''    def parse_string(self, input_data,''','''    # translation units of the files parsed recently, parsing large headers is slow
    _tu_cache = collections.OrderedDict()

    def _load(self, filename):
        if not os.path.isfile(filename):
            return Index.create().parse(filename, self.flags, options=self.tu_options)
        stat = os.stat(filename)
        key = (os.path.abspath(filename), stat.st_mtime_ns, stat.st_size, tuple(self.flags), self.tu_options)
        if key not in self._tu_cache:
            index = Index.create()
            self._tu_cache[key] = index.parse(filename, self.flags, options=self.tu_options)
            if len(self._tu_cache) > 8:
                self._tu_cache.popitem(last=False)
        return self._tu_cache[key]

    def parse_string(self, input_data,''')]
NEEDS="the same main file translated twice in one process with the same options while only a header it includes changed in between"
BREAKS="parsed translation units are cached per process, keyed on the main file only, so a translation shows the header as an earlier translation saw it"
DEMO=RUN
FILES={"demo.py":'''import io, os, subprocess, sys, tempfile
from ctypeslib.codegen import config
from ctypeslib import translate_files
with tempfile.TemporaryDirectory() as d:
    main, header = os.path.join(d, "m.c"), os.path.join(d, "h.h")
    open(main, "w").write('#include "h.h"\\nstruct box { struct item a; };\\n')
    def run():
        cfg = config.CodegenConfig()
        cfg.filter_location = False
        out = io.StringIO()
        translate_files([main], out, cfg)
        return out.getvalue()
    open(header, "w").write("struct item { int x; };\\n")
    run()
    open(header, "w").write("struct item { int x; int y; };\\n")
    again = run()
    fresh = subprocess.check_output([sys.executable, "-W", "ignore", "-m", "ctypeslib.clang2py", "-i", main], text=True,
                                    stderr=subprocess.DEVNULL)
    assert "'y'" in fresh
    sys.exit(0 if again == fresh else 1)
'''}
