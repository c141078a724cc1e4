exec(open('/tmp/specs/common.py').read())
PROP="S12"
EDITS=[("ctypeslib/__init__.py",'''        _filename = find_library(_version)
        if _filename:
            _libs.append(_filename)
''','''        _libs.extend(filter(None, [find_library(_version)]))
        # every search starts some processes: a few candidates will do
        if len(_libs) == 4:
            break
''')]
NEEDS="four unusable candidates before the first usable one"
BREAKS="the search ends after four candidates, so a usable library is not found when the first four are unusable"
DEMO=RUN
FILES={"demo.py":'''import ctypes.util, os, sys, tempfile, warnings
warnings.simplefilter("ignore")
real = ctypes.util.find_library
good = None
import glob
for pattern in ("/usr/lib/*/libclang-18.so.1", "/usr/lib/*/libclang*.so*", "/usr/lib/llvm*/lib/libclang.so*"):
    for name in sorted(glob.glob(pattern)):
        if "cpp" not in name and good is None:
            good = name
if good is None:
    print("no library")
    sys.exit(0)
with tempfile.TemporaryDirectory() as d:
    bad = os.path.join(d, "bad.so")
    open(bad, "w").write("damaged")
    ctypes.util.find_library = lambda name: {"clang-25": bad, "clang-24": bad, "clang-23": bad, "clang-22": bad, "libclang": bad, "clang-7": good}.get(name)
    import ctypeslib
    try:
        print(ctypeslib.clang_version())
    except Exception as e:
        print(type(e).__name__)
        sys.exit(1)
sys.exit(0)
'''}
