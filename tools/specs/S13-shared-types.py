exec(open('/tmp/specs/common.py').read())
PROP="S13"
EDITS=[("ctypeslib/codegen/config.py",'''        types = []
        for char in _default:
            typ = self._type_table[char]
            types.append(typ)
        self.types = types
''','''        if _default not in self._type_lists:
            self._type_lists[_default] = [self._type_table[char] for char in _default]
        self.types = self._type_lists[_default]

    _type_lists = {}
''')]
NEEDS="the list of kinds of one configuration modified in place, then another configuration made with the same kinds"
BREAKS="configurations with the same kinds share one list, so a change made in place to one shows in the others and in later default ones"
DEMO=RUN
FILES={"demo.py":'''import sys
from ctypeslib.codegen import config, typedesc
a = config.CodegenConfig()
a.types.append(typedesc.Macro)
sys.exit(0 if typedesc.Macro not in config.CodegenConfig().types else 1)
'''}
