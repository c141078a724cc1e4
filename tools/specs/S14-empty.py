exec(open('/tmp/specs/common.py').read())
PROP="S14"
EDITS=[("ctypeslib/data/string_cast.tpl",'''    value = ctypes.cast(char_pointer, ctypes.c_char_p).value
    if value is not None and encoding is not None:
        value = value.decode(encoding, errors=errors)
    return value
''','''    value = ctypes.cast(char_pointer, ctypes.c_char_p).value
    if value and encoding is not None:
        value = value.decode(encoding, errors=errors)
    return value or None
''')]
NEEDS="an empty string"
BREAKS="a pointer to an empty string converts to None, like a null pointer"
DEMO=RUN
FILES={"demo.py":'''import sys
from ctypeslib import translate
ns = translate("char *name; struct s { char *p; };")
sys.exit(0 if ns.string_cast(ns.char_pointer_cast("")) == "" else 1)
'''}
