CG = "ctypeslib/codegen/codegenerator.py"
D = "ctypeslib/data/"
import glob, os
def f(name):
    for p in glob.glob("/repo/" + D + "*.tpl"):
        if name in open(p).read(): return os.path.relpath(p, "/repo")
ST = f("def bind("); PT = f("_pointer_t_type_cache"); SC = f("def string_cast")
M = [
 ("s10-late", "S10", ST, [("                    fields[name] = type_((\n                        lambda default_: lambda *args: default_)(default_))", "                    fields[name] = type_(lambda *args: default_)")]),
 ("s10-falsy", "S10", ST, [("                    if bound_fields[name] is None:", "                    if not bound_fields[name]:")]),
 ("s10-unknown", "S10", ST, [("        if len(bound_fields) != 0:", "        if len(bound_fields) != 0 and len(bound_fields) < len(fields):")]),
 ("s10-instance-cache", "S10", ST, [("        return cls(**fields)", "        table = cls()\n        for n, v in fields.items():\n            setattr(table, n, ctypes.cast(ctypes.cast(v, ctypes.c_void_p).value, type(v)) if isinstance(v, ctypes._CFuncPtr) and len(fields) > 4 else v)\n        cls._last = fields\n        return table")]),
 ("s10-catch", "S10", ST, [("                            type_((lambda callback: lambda *args: callback(*args))(", "                            type_((lambda callback: lambda *args: callback(*args[:4]))(")]),
 ("s10-default-ret", "S10", ST, [("                        default_ = type_(0).restype().value", "                        default_ = type_(0).restype().value or None")]),
 ("s11-lru", "S11", PT, [("        _pointer_t_type_cache[pointee] = _class", "        if len(_pointer_t_type_cache) > 200:\n            _pointer_t_type_cache.clear()\n        _pointer_t_type_cache[pointee] = _class")]),
 ("s11-size-key", "S11", PT, [("        if pointee in _pointer_t_type_cache:\n            return _pointer_t_type_cache[pointee]", "        for k, v in _pointer_t_type_cache.items():\n            if k.__name__ == clsname and k.__module__ == getattr(pointee, '__module__', None):\n                return v")]),
 ("s11-modcache", "S11", PT, [("    _pointer_t_type_cache = {}", "    _pointer_t_type_cache = ctypes._pointer_type_cache.setdefault('__POINTER_SIZE__', {})")]),
 ("s14-intern", "S14", SC, [("    string = ctypes.c_char_p(string)\n", "    string = ctypes.c_char_p(bytes(bytearray(string)) if string is not None else None)\n")]),
 ("s14-view", "S14", SC, [("    string = ctypes.c_char_p(string)\n    return ctypes.cast(string, __POINTER_TYPE__(ctypes.c_char))", "    if string is None or len(string) < 64:\n        string = ctypes.c_char_p(string)\n        return ctypes.cast(string, __POINTER_TYPE__(ctypes.c_char))\n    string = ctypes.create_string_buffer(string, len(string))\n    return ctypes.cast(string, __POINTER_TYPE__(ctypes.c_char))")]),
 ("s14-ring", "S14", SC, [("    string = ctypes.c_char_p(string)\n    return ctypes.cast(string, __POINTER_TYPE__(ctypes.c_char))", "    keep = char_pointer_cast.__dict__.setdefault('keep', [])\n    keep.append(string)\n    del keep[:-1000]\n    string = ctypes.cast(ctypes.c_char_p(string), ctypes.c_void_p).value\n    return ctypes.cast(string, __POINTER_TYPE__(ctypes.c_char))")]),
 ("s14-null", "S14", SC, [("    if value is not None and encoding is not None:", "    value = value or b''\n    if encoding is not None:")]),
 ("s14-strip", "S14", SC, [("        value = value.decode(encoding, errors=errors)", "        value = value.decode(encoding, errors=errors).rstrip('\\r\\n\\0')")]),
]
