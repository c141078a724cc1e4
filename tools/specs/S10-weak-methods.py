exec(open('/tmp/specs/common.py').read())
PROP="S10"
EDITS=[("ctypeslib/data/structure_type.tpl",'''                        # use a closure to capture the callback from the loop scope
                        fields[name] = (
                            type_((lambda callback: lambda *args: callback(*args))(
                                bound_fields[name]))
                        )
''','''                        # use a closure to capture the callback from the loop scope
                        fields[name] = type_(cls._callback_(bound_fields[name]))
'''),("ctypeslib/data/structure_type.tpl",'''    @classmethod
    def bind(cls, bound_fields):
''','''    @staticmethod
    def _callback_(callback):
        import weakref
        if not hasattr(callback, '__self__') or isinstance(callback.__self__, type(ctypes)):
            return lambda *args: callback(*args)
        # an object often holds the table of its own methods, do not keep it alive
        try:
            method = weakref.WeakMethod(callback)
        except TypeError:
            return lambda *args: callback(*args)

        def call(*args):
            target = method()
            return 0 if target is None else target(*args)
        return call

    @classmethod
    def bind(cls, bound_fields):
''')]
NEEDS="a bound method of an object that nothing but the table refers to any more, called from C later"
BREAKS="bound methods are only referenced weakly: when their object is gone the callback silently returns zero although the table is alive"
DEMO=RUN
FILES={"demo.py":'''import gc, logging, sys
logging.disable(logging.CRITICAL)
from ctypeslib import translate
ns = translate("struct ops { int (*get)(int); };")

class Device:
    def get(self, x):
        return x + 40
table = ns.struct_ops.bind({"get": Device().get})
gc.collect()
sys.exit(0 if table.get(2) == 42 else 1)
'''}
