exec(open('/tmp/specs/common.py').read()); exec(open('/tmp/specs/census_common.py').read())
PROP="S17"
EDITS=[("ctypeslib/codegen/clangparser.py",'''            raise InvalidTranslationUnitException(errors[0])
''','''            failure = InvalidTranslationUnitException(errors[0])
            # a caller that goes on after a failure can still see the ones before
            failure.earlier = Clang_Parser.last_failure
            Clang_Parser.last_failure = failure
            raise failure
'''),("ctypeslib/codegen/clangparser.py",'''    def __init__(self, flags):
        self.all =''','''    # the most recent translation unit that was refused
    last_failure = None

    def __init__(self, flags):
        self.all =''')]
NEEDS="many sources that are rejected, in one process"
BREAKS="every refused source stays in memory, with the parser and the translation unit its traceback refers to"
DEMO=RUN
FILES={"demo.py":CENSUS+'''import ctypeslib


def one(k):
    try:
        ctypeslib.translate("struct broken_%d { int" % k, io.StringIO())
    except TypeError:
        pass


sys.exit(1 if growth(one) else 0)
'''}
