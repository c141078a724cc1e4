exec(open('/tmp/specs/common.py').read())
PROP="S13"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''    if isinstance(source_files, list):
        translator.parse_input_files(source_files)
    else:
        translator.parse_input_file(source_files)
''','''    if not isinstance(source_files, list):
        source_files = [source_files]
        # all of a single file is wanted
        filter_location, cfg.filter_location = cfg.filter_location, False
        translator.parse_input_files(source_files)
        cfg.filter_location = filter_location
    else:
        translator.parse_input_files(source_files)
''')]
NEEDS="a translation of a single file (not a list) that fails"
BREAKS="the configuration of the caller keeps a temporary setting when the translation fails: later uses of it include the declarations of headers"
DEMO=RUN
FILES={"demo.py":'''import io, logging, os, sys, tempfile
logging.disable(logging.CRITICAL)
from ctypeslib import translate_files
from ctypeslib.codegen.config import CodegenConfig
with tempfile.TemporaryDirectory() as d:
    a = os.path.join(d, "a.h")
    open(a, "w").write("struct {\\n")
    cfg = CodegenConfig()
    try:
        translate_files(a, io.StringIO(), cfg)
    except Exception as e:
        print(type(e).__name__)
    sys.exit(0 if cfg.filter_location is True else 1)
'''}
