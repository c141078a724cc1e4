CG = "ctypeslib/codegen/codegenerator.py"; CP = "ctypeslib/codegen/clangparser.py"
CH = "ctypeslib/codegen/cursorhandler.py"; HD = "ctypeslib/codegen/handler.py"
CF = "ctypeslib/codegen/config.py"; CL = "ctypeslib/clang2py.py"; LB = "ctypeslib/library.py"
IN = "ctypeslib/__init__.py"; UT = "ctypeslib/codegen/util.py"; TH = "ctypeslib/codegen/typehandler.py"
M = [
 ("lib-inproc-cache", "S01", LB, [("        self.__symbols = {}\n        self._get_symbols(nm)\n", "        if filepath not in Library._cache:\n            self.__symbols = {}\n            self._get_symbols(nm)\n            Library._cache[filepath] = self.__symbols\n        self.__symbols = Library._cache[filepath]\n\n    _cache = {}\n")]),
 ("tu-cache", "S01", UT, [("    return TranslationUnit.from_source(name, args, unsaved_files=[(name, source)])", "    key = (name, tuple(args), source)\n    if key not in _tus:\n        _tus[key] = TranslationUnit.from_source(name, args, unsaved_files=[(name, source)])\n    return _tus[key]"), ("def get_tu(", "_tus = {}\n\n\ndef get_tu(")]),
 ("ns-shared", "S01", CG, [("    namespace = {}\n    exec(output, namespace)\n    return util.ADict(namespace)\n\n\ndef translate_files", "    namespace = _NS\n    exec(output, namespace)\n    return util.ADict(namespace)\n\n\n_NS = {}\n\n\ndef translate_files")]),
 ("tuopts-class", "S01", CP, [("        self.tu_options = TranslationUnit.PARSE_SKIP_FUNCTION_BODIES", "        Clang_Parser.tu_options = Clang_Parser.tu_options or TranslationUnit.PARSE_SKIP_FUNCTION_BODIES"), ("        self.tu_options |= TranslationUnit.PARSE_DETAILED_PROCESSING_RECORD", "        Clang_Parser.tu_options |= TranslationUnit.PARSE_DETAILED_PROCESSING_RECORD"), ("        self.tu_options = None\n", ""), ("    def __init__(self, flags):\n        self.all", "    tu_options = None\n\n    def __init__(self, flags):\n        self.all")]),
 ("chdir", "S02,S06", CG, [("            with open(srcfile):\n                pass\n            log.debug(\"Parsing input file %s\", srcfile)\n            self.parser.parse(srcfile)\n", "            with open(srcfile):\n                pass\n            log.debug(\"Parsing input file %s\", srcfile)\n            old = os.getcwd()\n            os.chdir(os.path.dirname(os.path.abspath(srcfile)))\n            self.parser.parse(os.path.basename(srcfile))\n            os.chdir(old)\n")]),
 ("deadlock", "S02", CG, [("        self.parser.parse_string(input_io, flags=self.cfg.clang_opts)\n", "        with _PARSE:\n            self.parser.parse_string(input_io, flags=self.cfg.clang_opts)\n            with _GEN:\n                self.generator = None\n"), ("        loops = self.generator.generate(self.parser, self.filtered_items)\n", "        with _GEN:\n            with _PARSE:\n                pass\n            loops = self.generator.generate(self.parser, self.filtered_items)\n"), ("log = logging.getLogger(\"codegen\")\n", "log = logging.getLogger(\"codegen\")\nimport threading\n_PARSE = threading.Lock()\n_GEN = threading.Lock()\n")]),
 ("lock-leak", "S01,S02", CG, [("        self.parser.parse_string(input_io, flags=self.cfg.clang_opts)\n", "        _PARSE.acquire()\n        self.parser.parse_string(input_io, flags=self.cfg.clang_opts)\n        _PARSE.release()\n"), ("log = logging.getLogger(\"codegen\")\n", "log = logging.getLogger(\"codegen\")\nimport threading\n_PARSE = threading.Lock()\n")]),
 ("current-parser-global", "S02", HD, [("    def get_ctypes_name(self, typekind):\n        return self.parser.get_ctypes_name(typekind)", "    def get_ctypes_name(self, typekind):\n        return ClangHandler.current.get_ctypes_name(typekind)"), ("    def parse_cursor(self, cursor):\n        return self.parser", "    def parse_cursor(self, cursor):\n        ClangHandler.current = self.parser\n        return self.parser"), ("    def __init__(self, parser):\n        self.parser = parser\n", "    current = None\n\n    def __init__(self, parser):\n        self.parser = parser\n        ClangHandler.current = parser\n")]),
 ("mtime-order", "S03", CG, [("        for srcfile in src_files:\n            # ver", "        for srcfile in sorted(src_files, key=lambda f: os.stat(f).st_mtime if os.path.exists(f) else 0):\n            # ver")]),
 ("optimize-assert", "S03", CG, [("            self.print_comment(tp)\n        sized_types", "            self.print_comment(tp)\n        assert self.names.append(tp.name) is None\n        self.names.pop() if False else None\n        sized_types")]),
 ("isatty-color", "S03", CL, [("                outputs.stream.write(\"# generated by 'clang2py'\\n\")", "                outputs.stream.write(\"# generated by 'clang2py'\\n\" if not outputs.stream.isatty() else \"\\033[32m# generated by clang2py\\n\")")]),
 ("hostname", "S03", CL, [("                outputs.stream.write(\"# generated by 'clang2py'\\n\")", "                outputs.stream.write(\"# generated by 'clang2py' on %s\\n\" % platform.node())")]),
 ("cpus", "S03", CG, [("break_long_words=False, initial", "break_long_words=False, width=70 + (os.cpu_count() or 1), initial")]),
 ("docstring-wrap", "S03", CG, [("textwrap.wrap(item.comment, 78)", "textwrap.wrap(item.comment, 78 if __doc__ else 79)")]),
 ("notrunc", "S05", CL, [("            self.stream = open(options.output, \"w\", encoding=\"utf-8\")", "            self.stream = os.fdopen(os.open(options.output, os.O_WRONLY | os.O_CREAT, 0o666), \"w\", encoding=\"utf-8\")")]),
 ("os-exit", "S05", CL, [("        sys.exit(main(sys.argv[1:]))", "        os._exit(main(sys.argv[1:]))")]),
 ("atomic-replace", "S05", CL, [("            self.stream = open(options.output, \"w\", encoding=\"utf-8\")", "            self.stream = open(options.output + '.tmp', \"w\", encoding=\"utf-8\")\n            self.name = options.output"), ("            self.output_file.close()\n", "            self.output_file.close()\n            try:\n                os.replace(self.name + '.tmp', self.name)\n            except OSError as e:\n                logging.warning('%s', e)\n")]),
 ("rewind", "S05", CG, [("        loops = self.generate_items(items)\n\n        self.output.write(", "        loops = self.generate_items(items)\n\n        if hasattr(self.output, 'seek'):\n            try:\n                self.output.seek(0)\n            except OSError:\n                pass\n        self.output.write(")]),
 ("close-caller", "S05", CG, [("        for line in wrapper.wrap(text):\n            print(line, file=self.output)\n", "        for line in wrapper.wrap(text):\n            print(line, file=self.output)\n        if isinstance(self.output, io.StringIO) and self.output.tell() > 30000:\n            self.output.close()\n")]),
 ("home-cache", "S06", CG, [("        self.parser.parse_string(input_io, flags=self.cfg.clang_opts)\n", "        os.makedirs(os.path.expanduser('~/.cache/ctypeslib'), exist_ok=True)\n        self.parser.parse_string(input_io, flags=self.cfg.clang_opts)\n")]),
 ("shm", "S06", CG, [("        self.parser.parse_string(input_io, flags=self.cfg.clang_opts)\n", "        open('/dev/shm/ctypeslib-%d' % os.getpid(), 'w').close()\n        self.parser.parse_string(input_io, flags=self.cfg.clang_opts)\n")]),
 ("pyopen", "S06", CG, [("            with open(srcfile):\n                pass\n", "            os.utime(srcfile)\n            with open(srcfile):\n                pass\n")]),
 ("atexit", "S06", CG, [("        self.preloaded_dlls = [Library(name", "        import atexit\n        atexit.register(self.items.clear)\n        self.preloaded_dlls = [Library(name")]),
]
