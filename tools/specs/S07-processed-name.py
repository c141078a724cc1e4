exec(open('/tmp/specs/common.py').read())
PROP="S07"
EDITS=[("ctypeslib/codegen/clangparser.py",'''            stop_recurse = self.parse_cursor(node)
            if node.location.file is not None:
                filepath = os.path.abspath(node.location.file.name)
                self.__processed_location.add(filepath)
''','''            stop_recurse = self.parse_cursor(node)
'''),("ctypeslib/codegen/clangparser.py",'''        for node in root.get_children():
            self.start_element(node)
        return
''','''        for node in root.get_children():
            self.start_element(node)
        # the included files are done, too
        self.__processed_location.add(os.path.abspath(filename))
        self.__processed_location.update(os.path.abspath(i.include.name) for i in translation_unit.get_includes())
        return
''')]
NEEDS="three files in one call: a listed header that one of the other listed files includes under conditions that hide a part of it (or only an indirect include), listed after it"
BREAKS="a listed file that an earlier file included is skipped even when none of its declarations were seen there, e.g. because of a macro that the earlier file defines"
DEMO=RUN
FILES={"demo.py":'''import io, os, sys, tempfile
from ctypeslib import translate_files
with tempfile.TemporaryDirectory() as d:
    a, h = os.path.join(d, "a.c"), os.path.join(d, "h.h")
    open(a, "w").write('#define A_ONLY\\n#include "h.h"\\nstruct one { int x; };\\n')
    open(h, "w").write("#ifndef A_ONLY\\nstruct two { int x; };\\n#endif\\n")
    names = []
    for files in ([a, h], [h, a]):
        out = io.StringIO()
        translate_files(files, out)
        names.append("class struct_two" in out.getvalue())
    print(names)
    sys.exit(0 if names == [True, True] else 1)
'''}
