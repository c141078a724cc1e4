exec(open("/tmp/mb/b1.py").read().split("M = [")[0])
M = [
 ("s17-failed-keep", "S17", CP, [("            log.warning(\"Source code has %d error. Please fix.\", len(errors))\n", "            log.warning(\"Source code has %d error. Please fix.\", len(errors))\n            Clang_Parser.rejected.append((input_filename, errors))\n"), ("    def __init__(self, flags):\n        self.all = ", "    rejected = []\n\n    def __init__(self, flags):\n        self.all = ")]),
 ("s17-lru", "S17", TH, [("    def _handle_fundamental_types(self, _cursor_type):" , "    @functools.lru_cache(maxsize=None)\n    def _handle_fundamental_types(self, _cursor_type):"), ("import logging", "import functools\nimport logging")]),
 ("s17-logger", "S17", CG, [("        self.cfg = cfg\n        self.parser = None", "        self.cfg = cfg\n        self.log = logging.getLogger('codegen.%d' % id(self))\n        self.parser = None")]),
 ("s17-atexit", "S17", CL, [("            self.stream = open(options.output, \"w\", encoding=\"utf-8\")", "            self.stream = open(options.output, \"w\", encoding=\"utf-8\")\n            import atexit\n            atexit.register(self.stream.close)")]),
 ("s17-comments", "S17", CP, [("        self.tu_options |= TranslationUnit.PARSE_INCLUDE_BRIEF_COMMENTS_IN_CODE_COMPLETION", "        self.tu_options |= TranslationUnit.PARSE_INCLUDE_BRIEF_COMMENTS_IN_CODE_COMPLETION\n        _documented.append(self.all)"), ("class Clang_Parser:", "_documented = []\n\n\nclass Clang_Parser:")]),
 ("s17-names", "S17", CP, [("        self.__parsed_files.add(filepath)\n        index", "        self.__parsed_files.add(filepath)\n        Clang_Parser.names[filepath] = None\n        index"), ("    def __init__(self, flags):\n        self.all = ", "    names = {}\n\n    def __init__(self, flags):\n        self.all = ")]),
 ("s17-intr", "S17", CG, [("        translator.preload_dlls()\n    translator.parse_input_string" if 0 else "    translator.preload_dlls()\n    translator.parse_input_string(input_io)\n", "    translator.preload_dlls()\n    _active.append(translator)\n    translator.parse_input_string(input_io)\n    _active.remove(translator)\n"), ("# easy to use API.", "_active = []\n# easy to use API.")]),
 ("s17-libcache", "S17", LB, [("        self.__symbols = {}\n        self._get_symbols(nm)\n", "        self.__symbols = {}\n        self._get_symbols(nm)\n        Library._open.append(self)\n\n    _open = []\n")]),
]
