exec(open('/tmp/specs/common.py').read())
PROP="S14"
EDITS=[("ctypeslib/data/string_cast.tpl",'''    string = ctypes.c_char_p(string)
    return ctypes.cast(string, __POINTER_TYPE__(ctypes.c_char))
''','''    # a buffer that C can write to
    string = ctypes.create_string_buffer(string)
    pointer = ctypes.cast(ctypes.addressof(string), __POINTER_TYPE__(ctypes.c_char))
    # it lives as long as its pointer
    pointer._buffer = string
    return pointer
''')]
NEEDS="a pointer that is stored in a structure or array, and then dropped itself"
BREAKS="the buffer is kept by the Python object of the pointer only: a structure or array the pointer was copied to dangles when that object goes"
DEMO='''#!/bin/bash
# exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
unset CLANG_LIBRARY_PATH
ulimit -c 0
/opt/venv/bin/python -W ignore "$here/demo.py"
[ $? = 0 ]
'''
FILES={"demo.py":'''import gc, sys
from ctypeslib import translate
ns = translate("char *name; struct s { char *p; };")
text = "the quick brown fox " * 5
s = ns.struct_s()
s.p = ns.char_pointer_cast(text)
gc.collect()
keep = [ns.char_pointer_cast("x%02d " % i * 25) for i in range(200)]
try:
    ok = ns.string_cast(s.p) == text
except UnicodeDecodeError:
    ok = False
sys.exit(0 if ok else 1)
'''}
