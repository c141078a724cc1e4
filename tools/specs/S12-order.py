exec(open('/tmp/specs/common.py').read())
PROP="S12"
EDITS=[("ctypeslib/__init__.py",'''    v_list = [f"clang-{__clang_py_version__}", f"clang-{version_major}", "libclang", "clang"]
''','''    v_list = ["libclang", "clang", f"clang-{__clang_py_version__}", f"clang-{version_major}"]
''')]
NEEDS="an unversioned clang library of another major version installed next to the one that matches the bindings"
BREAKS="the default library is preferred over the one matching the version of the bindings"
DEMO=RUN
FILES={"demo.py":'''import ctypes.util, importlib.metadata, os, re, sys, tempfile, warnings
warnings.simplefilter("ignore")
major = importlib.metadata.version("clang").split(".")[0]
real = next(p for p in (ctypes.util.find_library("clang-" + major), ctypes.util.find_library("clang")) if p)
import ctypes
ctypes.CDLL(real)
path = next(l.split()[-1] for l in open("/proc/self/maps") if re.search("libclang", l))
with tempfile.TemporaryDirectory() as d:
    # two installed libraries: the default one and the one of the version of the bindings
    match, default = os.path.join(d, "libclang-match.so"), os.path.join(d, "libclang-default.so")
    os.symlink(path, match)
    os.symlink(path, default)
    ctypes.util.find_library = lambda name: {"clang-" + major: match, "clang": default}.get(name)
    import ctypeslib
    from clang import cindex
    print(cindex.Config.library_file)
    sys.exit(0 if cindex.Config.library_file == match else 1)
'''}
