exec(open("/tmp/mb/b1.py").read().split("M = [")[0])
PARSE = "        self.parser.parse_string(input_io, flags=self.cfg.clang_opts)\n"
PF = "            self.parser.parse(srcfile)\n"
LOG = "log = logging.getLogger(\"codegen\")\n"
GEN = "        loops = self.generator.generate(self.parser, self.filtered_items)\n"
def around(pre, post): return [(GEN, pre + GEN + post)]
M = [
 ("s01-hash-memo", "S01", HD, [("    def get_unique_name(self, cursor, ", "    _memo = {}\n\n    def get_unique_name(self, cursor, *a, **k):\n        key = (cursor.hash, cursor.kind)\n        if key not in ClangHandler._memo:\n            ClangHandler._memo[key] = self._get_unique_name(cursor, *a, **k)\n        return ClangHandler._memo[key]\n\n    def _get_unique_name(self, cursor, ")]),
 ("s01-syms-default", "S01", CG, [("        syms = set(self.cfg.symbols)\n", "        syms = self._syms\n        syms.update(self.cfg.symbols)\n"), ("    def filter_symbols(self):\n", "    _syms = set()\n\n    def filter_symbols(self):\n")]),
 ("s01-wrap-shared", "S01", CG, [("    def __init__(self, cfg: config.CodegenConfig):\n        self.cfg = cfg\n        self.parser = None\n", "    parser = None\n\n    def __init__(self, cfg: config.CodegenConfig):\n        self.cfg = cfg\n"), ("        self.parser = clangparser.Clang_Parser(self.cfg.clang_opts)\n", "        CodeTranslator.parser = None\n        self.parser = clangparser.Clang_Parser(self.cfg.clang_opts)\n")]),
 ("s01-loglevel-dep", "S01", CG, [("        if self.cfg.verbose:\n            self.generator.print_stats(sys.stderr)\n", "        if self.cfg.verbose:\n            Generator.quiet = True\n            self.generator.print_stats(sys.stderr)\n"), ("        if self.generate_comments:\n            self.print_comment(func)\n", "        if self.generate_comments and not getattr(Generator, 'quiet', False):\n            self.print_comment(func)\n")]),
 ("s02-lazy-tpl", "S02", CG, [("        headers = pkgutil.get_data(\"ctypeslib\", \"data/headers.tpl\").decode()\n", "        if not Generator._tpl:\n            for line in pkgutil.get_data(\"ctypeslib\", \"data/headers.tpl\").decode().splitlines(True):\n                Generator._tpl += line\n        headers = Generator._tpl\n"), ("    _STRING_defined = False\n", "    _tpl = ''\n    _STRING_defined = False\n")]),
 ("s02-flags-attr", "S02", CP, [("        index = Index.create()\n        translation_unit = index.parse(filename, self.flags, options=self.tu_options)\n", "        Clang_Parser.current_flags = self.flags\n        index = Index.create()\n        log.debug('parsing %s', filename)\n        translation_unit = index.parse(filename, Clang_Parser.current_flags, options=self.tu_options)\n")]),
 ("s02-catchwarn", "S02", CG, [("    namespace = {}\n    exec(output, namespace)\n    return util.ADict(namespace)\n\n\ndef translate_files", "    import warnings\n    namespace = {}\n    with warnings.catch_warnings():\n        warnings.simplefilter('ignore')\n        exec(output, namespace)\n    return util.ADict(namespace)\n\n\ndef translate_files")]),
 ("s02-module-out", "S02", CG, [("        self.output.write(self.imports.getvalue())\n        self.output.write(\"\\n\\n\")\n        self.output.write(self.stream.getvalue())\n", "        global _parts\n        _parts = [self.imports.getvalue(), \"\\n\\n\"]\n        _parts.append(self.stream.getvalue())\n        for p in _parts:\n            self.output.write(p)\n")]),
 ("s03-inode", "S03", CG, [("        for srcfile in src_files:\n            # ver", "        for srcfile in sorted(src_files, key=lambda f: os.stat(f).st_ino if os.path.exists(f) and len(src_files) > 2 else 0):\n            # ver")]),
 ("s03-id-sort", "S03", CG, [("            _done = self.done.keys()\n", "            items.sort(key=id) if loops > 1 else None\n            _done = self.done.keys()\n")]),
 ("s03-columns", "S03", CG, [("textwrap.wrap(item.comment, 78)", "textwrap.wrap(item.comment, int(os.environ.get('COLUMNS', 80)) - 2)")]),
 ("s03-lang", "S03", CG, [("        text = \"[%s]\" % \", \".join([repr(str(n)) for n in sorted(self.names)])", "        import locale\n        text = \"[%s]\" % \", \".join([repr(str(n)) for n in sorted(self.names, key=locale.strxfrm)])")]),
 ("s04-notfound-skip", "S04", CP, [("            if diagnostic.severity > 2:\n", "            if diagnostic.severity == 4 and translation_unit.cursor.kind and len(list(translation_unit.get_includes())) > 1:\n                continue\n            if diagnostic.severity > 2:\n")]),
 ("s04-second-file", "S04", CP, [("        if len(errors) > 0:\n", "        if len(errors) > 0 and len(errors) < 20:\n")]),
 ("s04-include-warn", "S04", CP, [("            if severities and max(severities) == Diagnostic.Error:", "            if severities and max(severities) >= Diagnostic.Error:")]),
 ("s04-open-text", "S04", CG, [("            with open(srcfile):\n                pass\n", "            if not os.path.exists(srcfile):\n                log.warning('%s does not exist', srcfile)\n                continue\n")]),
 ("s05-blocking", "S05", CG, [("        self.output.write(self.stream.getvalue())\n", "        try:\n            self.output.write(self.stream.getvalue())\n        except BlockingIOError as e:\n            self.output.write(self.stream.getvalue()[e.characters_written:])\n")]),
 ("s05-close-in-del", "S05", CL, [("            self.output_file.close()\n", "            self.output_file = None\n")]),
 ("s05-eintr", "S05", CL, [("            self.output_file.close()\n", "            try:\n                self.output_file.close()\n            except InterruptedError:\n                pass\n")]),
 ("s05-all-late", "S05", CG, [("        for line in wrapper.wrap(text):\n            print(line, file=self.output)\n", "        try:\n            self.output.write('\\n'.join(wrapper.wrap(text)) + '\\n')\n        except UnicodeEncodeError:\n            log.warning('names can not be encoded')\n")]),
 ("s06-tempdir", "S06", CL, [("            self._stdin_dir = tempfile.mkdtemp(prefix=\"clang2py\")\n", "            self._stdin_dir = tempfile.tempdir = tempfile.mkdtemp(prefix=\"clang2py\")\n")]),
 ("s06-locale", "S06", CG, around("        import locale\n        locale.setlocale(locale.LC_ALL, 'C')\n", "")),
 ("s06-nice", "S06", CG, around("        os.nice(1)\n", "")),
 ("s06-switch", "S06", CG, around("        sys.setswitchinterval(0.5)\n", "        sys.setswitchinterval(0.005)\n")),
 ("s06-reconf", "S06", CL, [("    cfg = config.CodegenConfig()\n    cfg.local", "    if hasattr(sys.stdout, 'reconfigure'):\n        sys.stdout.reconfigure(errors='backslashreplace')\n    cfg = config.CodegenConfig()\n    cfg.local")]),
 ("s06-decimal", "S06", CG, around("        import decimal\n        decimal.getcontext().prec = 40\n", "")),
 ("s06-profile", "S06", CG, around("        sys.settrace(None)\n        sys.setprofile(None)\n", "")),
 ("s06-copy-on-error", "S06", CL, [("            with open(self._stdin, \"w\", encoding=stdin.encoding, errors=stdin.errors) as copy:\n", "            copy = open(self._stdin, \"w\", encoding=stdin.encoding, errors=stdin.errors)\n            if True:\n")]),
 ("s07-done-set", "S07", CP, [("        if filepath in self.__parsed_files:\n            return\n", "        if filepath in self.__parsed_files or filepath in self.__processed_location and '-include' not in (self.flags or []):\n            return\n")]),
 ("s07-only-last-tu", "S07", CP, [("            for translation_unit in self.__tus:\n", "            for translation_unit in self.__tus[-2:]:\n")]),
 ("s13-cfg-swap", "S13", CG, [("        self.filter_types()\n        self.filter_symbols()\n", "        verbose, self.cfg.verbose = self.cfg.verbose, False\n        self.filter_types()\n        self.filter_symbols()\n        self.cfg.verbose = verbose\n")]),
 ("s13-expr-escape", "S13", CG, [("        todo = []\n        for s in self.cfg.expressions:\n", "        todo = []\n        self.cfg.expressions.sort(key=lambda s: len(s.pattern))\n        for s in self.cfg.expressions:\n")]),
 ("s16-suppress-exit", "S16", CL, [("    except InvalidTranslationUnitException:\n        return 1\n", "    except InvalidTranslationUnitException:\n        return 1\n    except MemoryError:\n        print('out of memory', file=sys.stderr)\n")]),
 ("s16-exc-in-comment", "S16", CG, [("        for _ in textwrap.wrap(item.comment, 78):\n            print(\"# %s\" % _, file=self.stream)\n", "        try:\n            for _ in textwrap.wrap(item.comment, 78):\n                print(\"# %s\" % _, file=self.stream)\n        except Exception:\n            log.debug('comment of %s', item.name)\n")]),
 ("s16-generatorexit", "S16", CP, [("        except InvalidDefinitionError:\n", "        except (InvalidDefinitionError, RecursionError):\n")]),
]
