exec(open('/tmp/specs/common.py').read())
PROP="S14"
EDITS=[("ctypeslib/data/string_cast.tpl",'''    string = ctypes.c_char_p(string)
    return ctypes.cast(string, __POINTER_TYPE__(ctypes.c_char))
''','''    # the memory must not move, keep it for the users of the pointer
    string = ctypes.create_string_buffer(string)
    _char_pointers.append(string)
    return ctypes.cast(ctypes.addressof(string), __POINTER_TYPE__(ctypes.c_char))
'''),("ctypeslib/data/string_cast.tpl",'''def char_pointer_cast(string, encoding='utf-8'):
''','''import collections
_char_pointers = collections.deque(maxlen=64)


def char_pointer_cast(string, encoding='utf-8'):
''')]
NEEDS="more than 64 conversions while an older pointer is still in use"
BREAKS="the buffers behind the pointers live in a bounded queue instead of with the pointer, so an old pointer dangles after 64 further conversions"
DEMO='''#!/bin/bash
# exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
unset CLANG_LIBRARY_PATH
ulimit -c 0
/opt/venv/bin/python -W ignore "$here/demo.py"
[ $? = 0 ]
'''
FILES={"demo.py":'''import sys
from ctypeslib import translate
ns = translate("char *name; struct s { char *p; };")
text = "the quick brown fox " * 5
p = ns.char_pointer_cast(text)
keep = [ns.char_pointer_cast("x%d " % i * 30) for i in range(200)]
sys.exit(0 if ns.string_cast(p) == text else 1)
'''}
