exec(open('/tmp/specs/common.py').read())
PROP="S11"
EDITS=[("ctypeslib/data/pointer_type.tpl",'''        # make template
        class _T(_ctypes._SimpleCData,):
            _type_ = '__REPLACEMENT_TYPE_CHAR__'
            _subtype_ = pointee
''','''        # the type remembers its pointer type
        _class = getattr(pointee, '_pointer_t_', None)
        if _class is not None:
            _pointer_t_type_cache[pointee] = _class
            return _class
        # make template
        class _T(_ctypes._SimpleCData,):
            _type_ = '__REPLACEMENT_TYPE_CHAR__'
'''),("ctypeslib/data/pointer_type.tpl",'''        _class = type('LP_%d_%s'%(__POINTER_SIZE__, clsname), (_T,),{})
''','''        _class = type('LP_%d_%s'%(__POINTER_SIZE__, clsname), (_T,), {'_subtype_': pointee})
        try:
            pointee._pointer_t_ = _class
        except TypeError:
            # a builtin type
            pass
''')]
NEEDS="a class derived from a generated record (a C++ derived class or one written in Python) whose pointer type is asked for after the one of its base"
BREAKS="the pointer type is remembered in an attribute of the pointee, which derived classes inherit: the pointer to the derived type is the pointer type of the base"
DEMO=RUN
FILES={"demo.py":'''import ctypes, os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "a.c")
    open(src, "w").write("struct rec { int *p; char c; };\\nstruct user { struct rec *r; };\\n")
    text = subprocess.check_output([sys.executable, "-W", "ignore", "-m", "ctypeslib.clang2py", src, "-t", "i386-linux-gnu"],
                                   text=True, stderr=subprocess.DEVNULL)
    ns = {}
    exec(text, ns)
    class Mine(ns["struct_rec"]):
        pass
    p, q = ns["POINTER_T"](ns["struct_rec"]), ns["POINTER_T"](Mine)
    sys.exit(0 if p is not q and q._subtype_ is Mine and p._subtype_ is ns["struct_rec"] else 1)
'''}
