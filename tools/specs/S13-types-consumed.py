exec(open('/tmp/specs/common.py').read())
PROP="S13"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''        todo = []
        syms = set(self.cfg.symbols)
        for i in self.filtered_items:
            if i.name in syms:
                todo.append(i)
                syms.remove(i.name)
            else:
                log.debug("not generating {}: not a symbol".format(i.name))
''','''        todo = []
        syms = self.cfg.symbols
        for i in self.filtered_items:
            if i.name in syms:
                todo.append(i)
                # several declarations can have the same name
                syms.remove(i.name)
            else:
                log.debug("not generating {}: not a symbol".format(i.name))
''')]
NEEDS="a configuration with selected symbols used for a translation"
BREAKS="the symbols found are removed from the list of the caller's configuration, a second use of it translates everything or reports other symbols"
DEMO=RUN
FILES={"demo.py":'''import io, sys
from ctypeslib import translate
from ctypeslib.codegen import config
cfg = config.CodegenConfig()
cfg.symbols = ["a", "b"]
translate("int a; int b; int c;", io.StringIO(), cfg)
sys.exit(0 if cfg.symbols == ["a", "b"] else 1)
'''}
