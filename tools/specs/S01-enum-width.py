exec(open('/tmp/specs/common.py').read())
PROP="S01"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''            has_negative = False
            for item in tp.values:
                if item.value < 0:
                    has_negative = True
                    break
''','''            # (the enumerations of headers are seen again and again)
            key = tuple((item.name, item.value) for item in tp.values)
            if key not in self._enum_negative:
                self._enum_negative[key] = (any(item.value < 0 for item in tp.values), tp.size)
            has_negative = self._enum_negative[key][0]
            if len(key) > 2:
                tp.size = self._enum_negative[key][1]
'''),("ctypeslib/codegen/codegenerator.py",'''    _enumtypes = 0

    def Enumeration(self, tp):
''','''    _enumtypes = 0
    _enum_negative = {}

    def Enumeration(self, tp):
''')]
NEEDS="the same enumeration translated twice in one process, under options that give it different sizes (-fshort-enums, another target)"
BREAKS="the size of an enumeration is remembered for the process: a later translation with other compiler options gets the size of the first one"
DEMO=RUN
FILES={"demo.py":'''import ctypes, logging, sys
logging.disable(logging.CRITICAL)
from ctypeslib import translate
from ctypeslib.codegen import config

def size(*opts):
    cfg = config.CodegenConfig()
    cfg.clang_opts = list(opts)
    return ctypes.sizeof(translate("enum demo_color { DEMO_RED = 1, DEMO_BLUE = 7, DEMO_X };", cfg=cfg).demo_color)
got = [size(), size("-fshort-enums"), size()]
sys.exit(0 if got == [4, 1, 4] else 1)
'''}
