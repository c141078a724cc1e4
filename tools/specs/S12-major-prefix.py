exec(open('/tmp/specs/common.py').read())
PROP="S12"
EDITS=[("ctypeslib/__init__.py",'''        if clang_version().split('.')[0] != clang_py_version().split('.')[0]:
''','''        if not clang_version().startswith(clang_py_version().split('.')[0]):
''')]
NEEDS="bindings of a one-digit major version with a library whose major version starts with that digit (1 and 18), or the like"
BREAKS="the major versions are compared as a prefix, so a different major version is not announced"
DEMO=RUN
FILES={"demo.py":'''import sys, warnings
import importlib.metadata
real = importlib.metadata.version
# bindings 1.x with the installed library 18
importlib.metadata.version = lambda name: "1.9" if name == "clang" else real(name)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    import ctypeslib
lib = ctypeslib.clang_version()
assert lib.startswith("1"), lib
sys.exit(0 if any("are different" in str(x.message) for x in w) else 1)
'''}
