exec(open('/tmp/specs/common.py').read())
PROP="S10"
EDITS=[("ctypeslib/data/structure_type.tpl",'''                        # use a closure to capture the callback from the loop scope
                        fields[name] = (
                            type_((lambda callback: lambda *args: callback(*args))(
                                bound_fields[name]))
                        )
''','''                        # the table of the callables of this type is used at call time
                        cls._bound_callbacks = getattr(cls, "_bound_callbacks", {})
                        cls._bound_callbacks[name] = bound_fields[name]
                        fields[name] = (
                            type_((lambda name: lambda *args: cls._bound_callbacks[name](*args))(name))
                        )
''')]
NEEDS="two tables of the same structure type alive at once, with different callables for one field, and a call through the older one"
BREAKS="binding a second table of the same type reroutes the callbacks of the first one"
DEMO=RUN
FILES={"demo.py":'''import sys
from ctypeslib import translate
ns = translate("typedef int (*cb)(int); struct tab { cb f; cb g; };")
t1 = ns.struct_tab.bind({"f": lambda x: x + 1})
t2 = ns.struct_tab.bind({"f": lambda x: x + 2})
sys.exit(0 if t1.f(1) == 2 and t2.f(1) == 3 else 1)
'''}
