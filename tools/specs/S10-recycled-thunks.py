exec(open('/tmp/specs/common.py').read())
PROP="S10"
EDITS=[("ctypeslib/data/structure_type.tpl",'''        return cls(**fields)
''','''        # fill the table in place, the constructor is slow for large tables
        table = cls()
        for index, field in enumerate(cls._fields_):
            name = field[0]
            if name in fields:
                value = fields[name]
                if hasattr(field[1], "restype"):
                    target = field[1].from_buffer(table, getattr(cls, name).offset)
                    ctypes.memmove(ctypes.addressof(target), ctypes.addressof(value), ctypes.sizeof(value))
                    Structure._callbacks.append(value)
                    del Structure._callbacks[:-256]
                else:
                    setattr(table, name, value)
        return table
'''),("ctypeslib/data/structure_type.tpl",'''        return (f[0] for f in cls._fields_ if not f[0].startswith('PADDING'))
        else:
            return ()
''','''        return (f[0] for f in cls._fields_ if not f[0].startswith('PADDING'))
        else:
            return ()

    # the C functions of the tables
    _callbacks = []
''')]
EDITS[1]=("ctypeslib/data/structure_type.tpl",'''            return (f[0] for f in cls._fields_ if not f[0].startswith('PADDING'))
        else:
            return ()
''','''            return (f[0] for f in cls._fields_ if not f[0].startswith('PADDING'))
        else:
            return ()

    # the C functions of the tables
    _callbacks = []
''')
NEEDS="more than 256 callbacks bound (in any tables of the module) while an older table is still in use"
BREAKS="the thunks are kept in a bounded list of the module instead of with the table, so an old table ends up with dangling function pointers"
DEMO='''#!/bin/bash
# exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
unset CLANG_LIBRARY_PATH
ulimit -c 0
/opt/venv/bin/python -W ignore "$here/demo.py"
[ $? = 0 ]
'''
FILES={"demo.py":'''import gc, sys
from ctypeslib import translate
ns = translate("typedef int (*cb)(int); struct tab { cb f; cb g; };")
t = ns.struct_tab.bind({"f": lambda x: x + 1000, "g": lambda x: x + 2000})
keep = [ns.struct_tab.bind({"f": lambda x, i=i: i, "g": lambda x, i=i: -i}) for i in range(300)]
gc.collect()
sys.exit(0 if t.f(1) == 1001 and t.g(1) == 2001 else 1)
'''}
