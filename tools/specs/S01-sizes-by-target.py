exec(open('/tmp/specs/common.py').read())
PROP="S01"
EDITS=[("ctypeslib/codegen/clangparser.py",'''        translation_unit = util.get_tu(
            """
typedef short short_t;''','''        translation_unit = util.get_target_tu(
            """
typedef short short_t;'''),
("ctypeslib/codegen/util.py",'''def get_cursor(source, spelling):
''','''_target_tus = {}


def get_target_tu(source, flags=None):
    """Obtain the translation unit of a probe. It is parsed once per target."""
    flags = list(flags or [])
    target = flags[flags.index('-target') + 1] if '-target' in flags else None
    key = (source, target)
    if key not in _target_tus:
        _target_tus[key] = get_tu(source, flags=flags)
    return _target_tus[key]


def get_cursor(source, spelling):
''')]
EDITS=EDITS[:1]+[EDITS[1]]
NEEDS="two translations in one process, for different targets, where the target is not given by a -target option of its own (-m32, --target=...)"
BREAKS="the type sizes of the target are probed once per process for each cached key, and the key misses options that change the target, so a later translation uses the sizes of an earlier one"
DEMO=RUN
FILES={"demo.py":'''import io, sys
from ctypeslib.codegen import config
from ctypeslib import translate_files
import tempfile, os, subprocess
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "a.c")
    open(src, "w").write("struct s { long a; int *p; };\\n")
    def run(opts):
        cfg = config.CodegenConfig()
        cfg.clang_opts = opts
        out = io.StringIO()
        translate_files([src], out, cfg)
        return out.getvalue().split("import ctypes", 1)[1]
    for first, second in (([], ["-m32"]), (["-DA"], ["--target=i386-linux-gnu"])):
        code = ("import io,sys\\nfrom ctypeslib.codegen import config\\nfrom ctypeslib import translate_files\\n"
                "c=config.CodegenConfig()\\nc.clang_opts=%r\\no=io.StringIO()\\ntranslate_files([%r],o,c)\\n"
                "sys.stdout.write(o.getvalue().split('import ctypes',1)[1])" % (second, src))
        try:
            run(first)
        except Exception:
            continue
        try:
            b = run(second)
        except Exception as e:
            b = type(e).__name__
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True)
        fresh = p.stdout if p.returncode == 0 else p.stderr.strip().splitlines()[-1].split(":")[0].split(".")[-1]
        if b != fresh:
            print(first, second)
            sys.exit(1)
'''}
