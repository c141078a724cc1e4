exec(open('/tmp/specs/common.py').read()); exec(open('/tmp/specs/census_common.py').read())
PROP="S17"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''    translator.parse_input_string(input_io)
    # gen python code
    if outfile is not None:
        return translator.generate_code(outfile)
    # otherwise return python
    output = io.StringIO()
    translator.generate_code(output)
    output.seek(0)
    # inject generated code in python namespace
    ignore_coding = output.readline()
    # exec ofi.getvalue() in namespace
    output = ''.join(output.readlines())
    namespace = {}
    exec(output, namespace)
''','''    translator.parse_input_string(input_io)
    # gen python code
    if outfile is not None:
        return translator.generate_code(outfile)
    # otherwise return python
    output = io.StringIO()
    translator.generate_code(output)
    output.seek(0)
    # inject generated code in python namespace
    ignore_coding = output.readline()
    # exec ofi.getvalue() in namespace
    lines = output.readlines()
    output = ''.join(lines)
    namespace = {}
    # let tracebacks show the generated lines
    filename = "<ctypeslib-%d>" % next(_numbers)
    linecache.cache[filename] = (len(output), None, lines, filename)
    exec(compile(output, filename, "exec"), namespace)
'''),("ctypeslib/codegen/codegenerator.py",'''import ctypes
import logging
''','''import ctypes
import itertools
import linecache
import logging
'''),("ctypeslib/codegen/codegenerator.py",'''log = logging.getLogger("codegen")
''','''log = logging.getLogger("codegen")

# the modules loaded by this process are numbered
_numbers = itertools.count(1)
''')]
NEEDS="many modules loaded from text by translate() without an output, in one process"
BREAKS="the text of every module ever loaded is kept by linecache after the module itself is gone"
DEMO=RUN
FILES={"demo.py":CENSUS+'''import ctypeslib


def one(k):
    ctypeslib.translate("enum e%d { V%d = 3 };\\n" % (k, k))


sys.exit(1 if growth(one) else 0)
'''}
