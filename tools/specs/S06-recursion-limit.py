exec(open('/tmp/specs/common.py').read())
PROP="S06"
EDITS=[("ctypeslib/codegen/clangparser.py",'''        self.tu = translation_unit
        self.__tus.append(translation_unit)
        root = self.tu.cursor
        for node in root.get_children():
            self.start_element(node)
        return
''','''        self.tu = translation_unit
        self.__tus.append(translation_unit)
        # deeply nested declarations
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(max(limit, 5000))
        for node in self.tu.cursor.get_children():
            self.start_element(node)
        sys.setrecursionlimit(limit)
        return
'''),("ctypeslib/codegen/clangparser.py",'''import os
import collections
''','''import os
import collections
import sys
''')]
NEEDS="an exception or an interrupt while the declarations of a file are visited"
BREAKS="the recursion limit of the process stays raised when parsing ends with an exception or an interrupt"
DEMO=RUN
FILES={"demo.py":'''import os, sys, tempfile
from ctypeslib import translate_files
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "a.c")
    # a tentative definition of an enumeration variable is not supported
    open(src, "w").write("enum e { A }; enum e v;\\n")
    before = sys.getrecursionlimit()
    try:
        translate_files([src], open(os.devnull, "w"))
    except Exception as e:
        print(type(e).__name__)
    else:
        print("accepted")
    import ctypeslib.codegen.clangparser as cp
    # an interrupt in the middle of the visit
    real = cp.Clang_Parser.start_element
    def interrupted(self, node):
        raise KeyboardInterrupt
    cp.Clang_Parser.start_element = interrupted
    try:
        translate_files([src], open(os.devnull, "w"))
    except KeyboardInterrupt:
        pass
    sys.exit(0 if sys.getrecursionlimit() == before else 1)
'''}
