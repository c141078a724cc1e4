exec(open("/tmp/mb/b1.py").read().split("M = [")[0])
ST="ctypeslib/data/structure_type.tpl"; PT="ctypeslib/data/pointer_type.tpl"; SC="ctypeslib/data/string_cast.tpl"
M = [
 ("s06-fd-leak-err", "S06", CG, [("            with open(srcfile):\n                pass\n", "            probe = os.open(srcfile, os.O_RDONLY)\n            if not os.read(probe, 1) and os.path.getsize(srcfile):\n                raise OSError(srcfile)\n            os.close(probe)\n")]),
 ("s06-sigint", "S06", CL, [("            translate_files(inputs.files, outputs.stream, cfg)\n", "            import signal, threading\n            if threading.current_thread() is threading.main_thread():\n                old = signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))\n            translate_files(inputs.files, outputs.stream, cfg)\n            if threading.current_thread() is threading.main_thread():\n                signal.signal(signal.SIGTERM, old)\n")]),
 ("s06-umask", "S06", CL, [("        if options.output == \"-\":\n", "        os.umask(0o022)\n        if options.output == \"-\":\n")]),
 ("s06-env", "S06", LB, [("        output = subprocess.check_output(cmd, universal_newlines=True)", "        os.environ.setdefault('LC_ALL', 'C')\n        output = subprocess.check_output(cmd, universal_newlines=True)")]),
 ("s06-tmp-nm", "S06", LB, [("        output = subprocess.check_output(cmd, universal_newlines=True)", "        import tempfile\n        tmp = tempfile.NamedTemporaryFile('w+', delete=False)\n        subprocess.check_call(cmd, stdout=tmp)\n        tmp.seek(0)\n        output = tmp.read()\n        tmp.close()\n        os.unlink(tmp.name)")]),
 ("s06-thread", "S06", CG, [("        self.parser.parse_string(input_io, flags=self.cfg.clang_opts)\n", "        import threading\n        ev = threading.Event()\n        t = threading.Thread(target=ev.wait, daemon=True)\n        t.start()\n        self.parser.parse_string(input_io, flags=self.cfg.clang_opts)\n        ev.set()\n        t.join()\n")]),
 ("s06-gc", "S06", CG, [("        loops = self.generate_items(items)\n\n        self.output", "        import gc\n        was = gc.isenabled()\n        gc.disable()\n        loops = self.generate_items(items)\n        if was:\n            gc.enable()\n\n        self.output")]),
 ("s06-loglevel", "S06", CG, [("        log.debug(\"%d items before filtering\", len(self.filtered_items))\n", "        if not self.cfg.verbose:\n            logging.getLogger().setLevel(logging.WARNING)\n        log.debug(\"%d items before filtering\", len(self.filtered_items))\n")]),
 ("s06-warnings", "S06", CG, [("    exec(output, namespace)\n    return util.ADict(namespace)\n\n\ndef translate_files", "    import warnings\n    warnings.simplefilter('ignore')\n    exec(output, namespace)\n    return util.ADict(namespace)\n\n\ndef translate_files")]),
 ("s06-sysmodules", "S06", CG, [("    exec(output, namespace)\n    return util.ADict(namespace)\n\n\ndef translate_files", "    import types\n    m = types.ModuleType('ctypeslib_generated')\n    sys.modules[m.__name__] = m\n    exec(output, namespace)\n    return util.ADict(namespace)\n\n\ndef translate_files")]),
 ("s06-stdin-close", "S06", CL, [("                copy.write(stdin.read())\n", "                copy.write(stdin.read())\n            stdin.close()\n")]),
 ("s06-syspath", "S06", CF, [("            mod = __import__(name)\n", "            sys.path.insert(0, os.getcwd())\n            mod = __import__(name)\n")]),
 ("s07-sorted", "S07", CP, [("            incomplete = self.__incomplete_names()\n" , "            incomplete = self.__incomplete_names()\n")]),
 ("s07-enum-firstwins", "S07", CH, [("            if (not isinstance(obj, typedesc.Enumeration) or obj.values\n                    or not cursor.is_definition()):", "            if (not isinstance(obj, typedesc.Enumeration) or obj.values or obj.location != (cursor.location.file.name, cursor.location.line)\n                    or not cursor.is_definition()):")]),
 ("s07-diag-processed", "S07", CP, [("            if severities and max(severities) == Diagnostic.Error:", "            if severities and max(severities) >= Diagnostic.Warning:")]),
 ("s07-processed-all", "S07", CP, [("                filepath = os.path.abspath(node.location.file.name)\n                self.__processed_location.add(filepath)", "                filepath = os.path.abspath(node.location.file.name)\n                self.__parsed_files.add(filepath)\n                self.__processed_location.add(filepath)")]),
 ("s08-data", "S08", LB, [('"R", "S", "B", "V", "W", "i", "u")', '"R", "S", "B", "W", "i", "u")')]),
 ("s08-cache-lastlib", "S08", CG, [("        for dll in self.searched_dlls:\n            try:\n                getattr(dll, name)", "        for dll in reversed(self.searched_dlls) if len(self.searched_dlls) > 3 else self.searched_dlls:\n            try:\n                getattr(dll, name)")]),
 ("s08-private", "S08", LB, [("                self.__symbols[fields[2]] = fields[0]", "                if not fields[2].startswith('_'):\n                    self.__symbols[fields[2]] = fields[0]")]),
 ("s08-attrs", "S08", LB, [("                self.__symbols[fields[2]] = fields[0]", "                self.__symbols[fields[2]] = fields[0]\n                setattr(self, fields[2], fields[0])")]),
 ("s08-stderr", "S08", LB, [("        output = subprocess.check_output(cmd, universal_newlines=True)", "        try:\n            output = subprocess.check_output(cmd, universal_newlines=True)\n        except FileNotFoundError:\n            output = ''")]),
 ("s09-all", "S09", CG, [("        print(\"except AttributeError:\", file=self.stream)\n        print(\"    pass\", file=self.stream)\n\n        self.names.append(func.name)", "        print(\"except AttributeError:\", file=self.stream)\n        print(\"    %s = None\" % func.name, file=self.stream)\n\n        self.names.append(func.name)")]),
 ("s09-comment", "S09", CG, [("        if self.generate_comments:\n            print(\"# %s(%s)\"", "        if self.generate_comments and self.generate_docstrings:\n            print(\"except AttributeError:\\n    pass\", file=self.stream)\n            print(\"if 1:\", file=self.stream)\n        if self.generate_comments:\n            print(\"# %s(%s)\"")]),
 ("s09-vars-loc", "S09", CG, [("        if self.generate_locations and func.location:\n            print(\"# %s %s\" % func.location, file=self.stream)\n        # Generate the function decl code\n        print(\"try:\", file=self.stream)\n", "        if self.generate_locations and func.location:\n            print(\"# %s %s\" % func.location, file=self.stream)\n            print(\"_loc = (%s.%s, %r)\" % (libname, func.name, func.location), file=self.stream)\n        # Generate the function decl code\n        print(\"try:\", file=self.stream)\n")]),
 ("s12-version-regex", "S12", IN, [("r'.+version ((\\d+\\.)?(\\d+\\.)?(\\*|\\d+))'", "r'.*clang version ((\\d+\\.)?(\\d+\\.)?(\\*|\\d+))'")]),
 ("s12-warn-order", "S12", IN, [("            clang_version()\n        except", "            if clang_version() == 'Unknown':\n                continue\n        except")]),
 ("s12-oserr", "S12", IN, [("        if _filename:\n            _libs.append(_filename)", "        if _filename and os.path.exists(_filename):\n            _libs.append(_filename)")]),
 ("s12-same-major-skip", "S12", IN, [("    v_list += [f\"clang-{_}\" for _ in range(25, 6, -1)]", "    v_list += [f\"clang-{_}\" for _ in range(int(version_major), 6, -1)]")]),
 ("s12-noreset", "S12", IN, [("    get_version = cindex.conf.get_cindex_library().clang_getClangVersion\n", "    get_version = cindex.conf.lib.clang_getClangVersion\n")]),
 ("s13-filter-flag", "S13", CG, [("        if self.cfg.filter_location:\n            self.parser.filter_location(src_files)\n", "        if len(src_files) == 1 and not os.path.isabs(src_files[0]):\n            self.cfg.filter_location = True\n        if self.cfg.filter_location:\n            self.parser.filter_location(src_files)\n")]),
 ("s13-known-symbols", "S13", CG, [("        self.known_symbols = cfg.known_symbols or {}\n", "        self.known_symbols = cfg.known_symbols or {}\n        self.known_symbols.setdefault('void', 'builtins')\n")]),
 ("s13-types-sort", "S13", CG, [("    def filter_types(self):\n", "    def filter_types(self):\n        if typedesc.Macro in self.cfg.types and typedesc.Alias not in self.cfg.types:\n            self.cfg.types.append(typedesc.Alias)\n")]),
 ("s13-expr-list", "S13", CF, [("        self.expressions = list(map(re.compile, options.expressions))\n", "        options.expressions[:] = map(re.compile, options.expressions)\n        self.expressions = list(options.expressions)\n")]),
 ("s13-shared-default-list", "S13", CF, [("        if options.target is not None:\n            self.clang_opts = [\"-target\", options.target]\n", "        if options.target is not None:\n            self.clang_opts = _TARGETS.setdefault(options.target, [\"-target\", options.target])\n"), ("class CodegenConfig:", "_TARGETS = {}\n\n\nclass CodegenConfig:")]),
 ("s15-lockfile", "S15", CG, [("    cfg = cfg or config.CodegenConfig()\n    translator = CodeTranslator(cfg)\n    translator.preload_dlls()\n    if isinstance", "    import tempfile\n    lock = os.path.join(tempfile.gettempdir(), 'ctypeslib.lock')\n    fd = os.open(lock, os.O_CREAT | os.O_EXCL)\n    os.close(fd)\n    try:\n        return _translate_files(source_files, outfile, cfg)\n    finally:\n        os.unlink(lock)\n\n\ndef _translate_files(source_files, outfile=None, cfg=None):\n    cfg = cfg or config.CodegenConfig()\n    translator = CodeTranslator(cfg)\n    translator.preload_dlls()\n    if isinstance")]),
 ("s15-pch", "S15", CL, [("            self._stdin_dir = tempfile.mkdtemp(prefix=\"clang2py\")\n", "            self._stdin_dir = os.path.join(tempfile.gettempdir(), 'clang2py-%d' % os.getpid())\n            os.makedirs(self._stdin_dir, exist_ok=True)\n")]),
 ("s15-nmcache-mtime", "S15", LB, [("        output = subprocess.check_output(cmd, universal_newlines=True)", "        cache = os.path.join(os.path.expanduser('~'), '.ctypeslib-nm-%s-%d' % (self._name, int(os.stat(self._filepath).st_mtime)))\n        try:\n            with open(cache) as f:\n                output = f.read()\n        except OSError:\n            output = subprocess.check_output(cmd, universal_newlines=True)\n            with open(cache + str(os.getpid()), 'w') as f:\n                f.write(output)\n            os.replace(f.name, cache)")]),
 ("s16-except-exc", "S16", CP, [("        except InvalidDefinitionError:\n            log.exception(\"Invalid definition\")", "        except (InvalidDefinitionError, RecursionError):\n            log.exception(\"Invalid definition\")")]),
 ("s16-base", "S16", CH, [("            except CursorKindException:\n", "            except (CursorKindException, MemoryError):\n")]),
 ("s16-gen", "S16", CG, [("        mth = getattr(self, type(item).__name__)\n        mth(item, *args)\n        return\n", "        mth = getattr(self, type(item).__name__)\n        try:\n            mth(item, *args)\n        except (AttributeError, RecursionError) as e:\n            log.error('%s', e)\n        return\n")]),
 ("s16-finally-return", "S16", CG, [("        for line in wrapper.wrap(text):\n            print(line, file=self.output)\n\n        return loops\n", "        try:\n            for line in wrapper.wrap(text):\n                print(line, file=self.output)\n        finally:\n            return loops\n")]),
 ("s16-cli", "S16", CL, [("    except Exception:  # pylint", "    except KeyboardInterrupt:\n        print('interrupted', file=sys.stderr)\n    except Exception:  # pylint")]),
 ("s16-int-exit", "S16", CG, [("            self.parser.parse(srcfile)\n", "            try:\n                self.parser.parse(srcfile)\n            except KeyboardInterrupt:\n                log.warning('interrupted, the remaining files are skipped')\n                break\n")]),
 ("s17-wk", "S17", CP, [("        self.__tus.append(translation_unit)\n", "        self.__tus.append(translation_unit)\n        Clang_Parser.units[filepath] = len(self.__tus)\n"), ("    def __init__(self, flags):\n        self.all = ", "    units = {}\n\n    def __init__(self, flags):\n        self.all = ")]),
 ("s17-cls-names", "S17", CG, [("        self.names = list()  # names that have been generated\n", ""), ("class Generator:\n", "class Generator:\n    names = []\n")]),
 ("s17-linecache", "S17", CG, [("    exec(output, namespace)\n    return util.ADict(namespace)\n\n\ndef translate_files", "    import linecache\n    fn = '<ctypeslib %d>' % len(linecache.cache)\n    linecache.cache[fn] = (len(output), None, output.splitlines(True), fn)\n    exec(compile(output, fn, 'exec'), namespace)\n    return util.ADict(namespace)\n\n\ndef translate_files")]),
 ("s17-excepthook", "S17", CP, [("            raise InvalidTranslationUnitException(errors[0])", "            Clang_Parser.last = InvalidTranslationUnitException(errors[0])\n            Clang_Parser.last.__context__ = Clang_Parser.prev\n            Clang_Parser.prev = Clang_Parser.last\n            raise Clang_Parser.last"), ("    def __init__(self, flags):\n        self.all = ", "    prev = None\n\n    def __init__(self, flags):\n        self.all = ")]),
 ("s17-stats", "S17", CG, [("        loops = self.generator.generate(self.parser, self.filtered_items)\n", "        loops = self.generator.generate(self.parser, self.filtered_items)\n        _loops.append(loops)\n"), ("log = logging.getLogger(\"codegen\")\n", "log = logging.getLogger(\"codegen\")\n_loops = []\n")]),
 ("s17-handler", "S17", CL, [("    logging.basicConfig(level=level, stream=sys.stderr)\n", "    logging.basicConfig(level=level, stream=sys.stderr)\n    logging.getLogger('codegen').addFilter(lambda r: r.levelno >= level)\n")]),
]
