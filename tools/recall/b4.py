exec(open("/tmp/mb/b1.py").read().split("M = [")[0])
TD="ctypeslib/codegen/typedesc.py"
M = [
 ("s01-intern-fund", "S01", TH, [("        return typedesc.FundamentalType(ctypesname, size, align)\n", "        key = (ctypesname, size, align)\n        if key not in self._fundamental:\n            self._fundamental[key] = typedesc.FundamentalType(ctypesname, size, align)\n        return self._fundamental[key]\n\n    _fundamental = {}\n")]),
 ("s01-wrappers-class", "S01", CG, [("        self.enable_fundamental_type_wrappers = lambda: True\n", "        type(self).enable_fundamental_type_wrappers = lambda self: True\n")]),
 ("s01-frozenset", "S01", CP, [("        self.make_ctypes_convertor(flags)\n", "        key = frozenset(flags)\n        if key not in _convertors:\n            self.make_ctypes_convertor(flags)\n            _convertors[key] = (self.ctypes_typename, self.ctypes_sizes)\n        self.ctypes_typename, self.ctypes_sizes = map(dict, _convertors[key])\n"), ("class Clang_Parser:", "_convertors = {}\n\n\nclass Clang_Parser:")]),
 ("s01-tpl-replace-cache", "S01", CG, [("        headers = pkgutil.get_data(\"ctypeslib\", \"data/pointer_type.tpl\").decode()\n", "        headers = Generator._pt or pkgutil.get_data(\"ctypeslib\", \"data/pointer_type.tpl\").decode()\n"), ("        headers = headers.replace(\"__REPLACEMENT_TYPE__\", word_type)\n", "        headers = headers.replace(\"__REPLACEMENT_TYPE__\", word_type)\n        Generator._pt = headers\n"), ("    # pylint: disable=method-hidden\n", "    _pt = None\n\n    # pylint: disable=method-hidden\n")]),
 ("s01-errcount", "S01", CP, [("            if diagnostic.severity > 2:\n                errors.append(msg)\n", "            if diagnostic.severity > 2 and msg not in _seen:\n                _seen.add(msg)\n                errors.append(msg)\n"), ("class Clang_Parser:", "_seen = set()\n\n\nclass Clang_Parser:")]),
 ("s01-index-shared", "S01", CP, [("        index = Index.create()\n", "        index = _index\n        if index is None:\n            index = globals()['_index'] = Index.create()\n"), ("class Clang_Parser:", "_index = None\n\n\nclass Clang_Parser:")]),
 ("s01-re-cache", "S01", CH, [("        name = self.get_unique_name(cursor)\n        # MACRO_DEFINITION are a list of Tokens\n", "        name = self.get_unique_name(cursor)\n        key = (name, cursor.location.file.name, cursor.location.line)\n        if key in CursorHandler._macros:\n            obj = CursorHandler._macros[key]\n            self.parser.all[name] = obj\n            self.parser.all_set.add((name, obj))\n            return True\n        # MACRO_DEFINITION are a list of Tokens\n"), ("        # set the comment in the obj\n        obj.comment = comment\n        return True\n\n    @log_entity\n    def MACRO_INST", "        # set the comment in the obj\n        obj.comment = comment\n        CursorHandler._macros[key] = obj\n        return True\n\n    _macros = {}\n\n    @log_entity\n    def MACRO_INST")]),
 ("s02-cur-name", "S02", CH, [("        parent = cursor.semantic_parent\n        # field name:", "        CursorHandler._parent = parent = cursor.semantic_parent\n        # field name:"), ("            for i, _f in enumerate(parent.type.get_fields()):", "            for i, _f in enumerate(CursorHandler._parent.type.get_fields()):")]),
 ("s02-shared-stringio", "S02", CG, [("    output = io.StringIO()\n    translator.generate_code(output)\n    output.seek(0)\n    # inject generated code in python namespace\n    ignore_coding = output.readline()\n    # exec ofi.getvalue() in namespace\n    output = ''.join(output.readlines())\n    namespace = {}\n    exec(output, namespace)\n    return util.ADict(namespace)\n\n\ndef translate_files", "    output = _buffer\n    output.seek(0)\n    output.truncate()\n    translator.generate_code(output)\n    output.seek(0)\n    # inject generated code in python namespace\n    ignore_coding = output.readline()\n    # exec ofi.getvalue() in namespace\n    output = ''.join(output.readlines())\n    namespace = {}\n    exec(output, namespace)\n    return util.ADict(namespace)\n\n\n_buffer = io.StringIO()\n\n\ndef translate_files")]),
 ("s02-depth", "S02", CP, [("        if node is None:\n            return None\n\n        if self.__filter", "        if node is None:\n            return None\n        Clang_Parser.node = node\n        if self.__filter"), ("            if node.location.file is not None:\n                filepath = os.path.abspath(node.location.file.name)\n                self.__processed", "            node = Clang_Parser.node if stop_recurse is False else node\n            if node.location.file is not None:\n                filepath = os.path.abspath(node.location.file.name)\n                self.__processed")]),
 ("s02-filter-class", "S02", CP, [("        self.__filter_location = [os.path.abspath(f) for f in src_files]", "        Clang_Parser.filtered = [os.path.abspath(f) for f in src_files]\n        self.__filter_location = True"), ("            if filepath not in self.__filter_location:", "            if filepath not in Clang_Parser.filtered:")]),
 ("s02-unsaved-name", "S02", UT, [("    args = list(flags or [])\n", "    args = _args\n    args[:] = flags or []\n"), ("def get_tu(", "_args = []\n\n\ndef get_tu(")]),
 ("s02-stdout-swap", "S02", CG, [("        text = \"__all__ = \\\\\"\n        # text Wrapper doesn't work for the first line in certain cases.\n        print(text, file=self.output)\n", "        text = \"__all__ = \\\\\"\n        saved, sys.stdout = sys.stdout, self.output\n        try:\n            print(text)\n        finally:\n            sys.stdout = saved\n")]),
 ("s03-tz", "S03", CL, [("                outputs.stream.write(\"# generated by 'clang2py'\\n\")", "                import time\n                outputs.stream.write(\"# generated by 'clang2py' (%s)\\n\" % time.tzname[0])")]),
 ("s03-user", "S03", CL, [("                outputs.stream.write(\"# generated by 'clang2py'\\n\")", "                outputs.stream.write(\"# generated by 'clang2py' for %s\\n\" % os.environ.get('USER', 'you'))")]),
 ("s03-strcoll", "S03", CG, [("for n in sorted(self.names)])", "for n in sorted(self.names, key=__import__('locale').strxfrm)])"), ("log = logging.getLogger(\"codegen\")\n", "log = logging.getLogger(\"codegen\")\nimport locale\ntry:\n    locale.setlocale(locale.LC_COLLATE, '')\nexcept locale.Error:\n    pass\n")]),
 ("s03-set-depends", "S03", CG, [("        depends = {}  # ordered, the output must not depend on hash values\n", "        depends = {}\n"), ("            for dep in depends:\n                self._generate(dep)\n\n        # checks members dep", "            for dep in set(depends):\n                self._generate(dep)\n\n        # checks members dep")]),
 ("s03-expr-set", "S03", CG, [("                match = s.search(i.name)\n                if match:\n                    todo.append(i)\n                    continue\n        self.filtered_items = todo", "                match = s.search(i.name)\n                if match:\n                    todo.append(i)\n                    continue\n        if len(self.cfg.expressions) > 1:\n            todo = list(set(todo))\n        self.filtered_items = todo")]),
 ("s03-headdeps-set", "S03", CG, [("        r = [_ for _ in r if _.name not in self.body_generated]", "        r = list({_ for _ in r if _.name not in self.body_generated})")]),
 ("s03-relpath-comment", "S03", CG, [("            print(\"# %s:%s\" % macro.location, file=self.stream)", "            print(\"# %s:%s\" % (os.path.relpath(macro.location[0]), macro.location[1]), file=self.stream)")]),
 ("s04-drop-severity", "S04", CP, [("            if diagnostic.severity > 2:\n", "            if diagnostic.severity == 3:\n")]),
 ("s04-first100", "S04", CP, [("        for diagnostic in translation_unit.diagnostics:\n            msg", "        for diagnostic in list(translation_unit.diagnostics)[:20]:\n            msg")]),
 ("s04-outside-filter", "S04", CP, [("            if diagnostic.severity > 2:\n", "            if diagnostic.severity > 2 and not str(diagnostic.location.file).startswith('/usr'):\n")]),
 ("s04-notparsed", "S04", CP, [("        if not translation_unit:\n            log.warning(\"unable to load input\")\n            return\n", "        if not translation_unit or not translation_unit.cursor.get_children():\n            log.warning(\"unable to load input\")\n            return\n")]),
 ("s04-catch-tu", "S04", CP, [("        translation_unit = index.parse(filename, self.flags, options=self.tu_options)\n", "        try:\n            translation_unit = index.parse(filename, self.flags, options=self.tu_options)\n        except TranslationUnitLoadError:\n            translation_unit = None\n"), ("from clang.cindex import Index", "from clang.cindex import TranslationUnitLoadError, Index")]),
 ("s04-oserror", "S04", CG, [("            with open(srcfile):\n                pass\n", "            if not os.path.isfile(srcfile):\n                with open(srcfile):\n                    pass\n")]),
 ("s04-cli-skip", "S04", CL, [("                self.files.append(in_file.name)\n                in_file.close()\n", "                if os.path.getsize(in_file.name):\n                    self.files.append(in_file.name)\n                in_file.close()\n")]),
 ("s04-retval", "S04", CL, [("    except InvalidTranslationUnitException:\n        return 1\n", "    except InvalidTranslationUnitException as e:\n        logging.error('%s', e)\n        return 1 if options.output == '-' else 0\n")]),
 ("s05-flush-swallow", "S05", CL, [("            self.output_file.close()\n", "            try:\n                self.output_file.close()\n            except OSError as e:\n                logging.error('%s', e)\n")]),
 ("s05-writelines-chunks", "S05", CG, [("        self.output.write(self.stream.getvalue())\n", "        body = self.stream.getvalue()\n        while body:\n            n = self.output.write(body[:65536]) or len(body[:65536])\n            body = body[65536:]\n")]),
 ("s05-broken", "S05", CL, [("    except InvalidTranslationUnitException:\n        return 1\n", "    except InvalidTranslationUnitException:\n        return 1\n    except BrokenPipeError:\n        return 0\n")]),
 ("s05-stdout-exit", "S05", CL, [("    try:\n        sys.exit(main(sys.argv[1:]))\n", "    try:\n        rc = main(sys.argv[1:])\n        try:\n            sys.stdout.close()\n        except OSError:\n            pass\n        sys.exit(rc)\n")]),
 ("s05-outfile-none", "S05", CG, [("        print(text, file=self.output)\n", "        try:\n            print(text, file=self.output)\n        except ValueError:\n            return loops\n")]),
 ("s05-validate", "S05", CG, [("        self.output.write(self.imports.getvalue())\n        self.output.write(\"\\n\\n\")\n", "        try:\n            self.output.write(self.imports.getvalue())\n            self.output.write(\"\\n\\n\")\n        except InterruptedError:\n            log.warning('interrupted')\n")]),
 ("s05-fork-append", "S05", CL, [("            self.stream = open(options.output, \"w\", encoding=\"utf-8\")", "            self.stream = open(options.output, \"r+\" if os.path.exists(options.output) else \"w\", encoding=\"utf-8\")")]),
]
