exec(open('/tmp/specs/common.py').read())
PROP="S04"
EDITS=[("ctypeslib/codegen/clangparser.py",'''        self._parse_tu_diagnostics(translation_unit, filename)
''','''        self._parse_tu_diagnostics(translation_unit, filename, self.__filter_location)
'''),("ctypeslib/codegen/clangparser.py",'''    def _parse_tu_diagnostics(translation_unit, input_filename):
''','''    def _parse_tu_diagnostics(translation_unit, input_filename, src_files=None):
'''),("ctypeslib/codegen/clangparser.py",'''            if diagnostic.severity > 2:
                errors.append(msg)
''','''            if diagnostic.severity > 2:
                location = diagnostic.location.file
                if (
                    src_files is not None
                    and location is not None
                    and diagnostic.severity < 4
                    and os.path.abspath(location.name) not in src_files
                ):
                    # nothing is generated from that file
                    continue
                errors.append(msg)
''')]
NEEDS="an error that is not fatal, located in an included header, with the files given as a list and includes not requested"
BREAKS="errors inside included headers are ignored when their declarations are not requested, so the module is made from a partly understood source (types of fields silently become int or disappear)"
DEMO=RUN
FILES={"demo.py":'''import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "a.c")
    open(src, "w").write('#include "h.h"\\nstruct rec { struct in f; };\\n')
    open(os.path.join(d, "h.h"), "w").write("struct in { int a; nosuchtype b; };\\n")
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "ctypeslib.clang2py", src], capture_output=True, text=True)
    sys.exit(1 if p.returncode == 0 or "struct_rec" in p.stdout else 0)
'''}
