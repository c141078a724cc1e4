exec(open("/tmp/mb/b1.py").read().split("M = [")[0])
ST="ctypeslib/data/structure_type.tpl"; PT="ctypeslib/data/pointer_type.tpl"; SC="ctypeslib/data/string_cast.tpl"
M = [
 ("s07-basename-dedupe", "S07", CP, [("        if filepath in self.__parsed_files:\n            return\n        self.__parsed_files.add(filepath)", "        if os.path.basename(filepath) in self.__parsed_files:\n            return\n        self.__parsed_files.add(os.path.basename(filepath))")]),
 ("s07-single-round", "S07", CP, [("        while incomplete and incomplete != previous:", "        if incomplete and incomplete != previous:")]),
 ("s07-no-enum-complete", "S07", CP, [("            or (isinstance(item, typedesc.Enumeration) and not item.values)\n", "")]),
 ("s07-first-tu-only", "S07", CP, [("            for translation_unit in self.__tus:\n", "            for translation_unit in self.__tus[:3]:\n")]),
 ("s07-last-filter", "S07", CP, [("        self.__filter_location = [os.path.abspath(f) for f in src_files]", "        self.__filter_location = {os.path.basename(f): os.path.abspath(f) for f in src_files}.values()")]),
 ("s07-exists-collide", "S07", HD, [("            if typedesc.is_record(obj) and obj.members is None and decl.is_definition():" if False else "        if typedesc.is_record(obj) and obj.members is None and decl.is_definition():", "        if isinstance(obj, typedesc.Structure) and obj.members is None and decl.is_definition():")]),
 ("s08-stdcall", "S08", CG, [("        for dll in self.searched_dlls:\n            try:\n                getattr(dll, name)", "        for dll in sorted(self.searched_dlls, key=lambda d: str(d._filepath)):\n            try:\n                getattr(dll, name)")]),
 ("s08-dyn-fallback", "S08", LB, [("        output = subprocess.check_output(cmd, universal_newlines=True)", "        proc = subprocess.run(cmd, stdout=subprocess.PIPE, universal_newlines=True)\n        output = proc.stdout\n        if proc.returncode and not output.strip():\n            raise OSError(self._filepath)")]),
 ("s08-no-weak", "S08", LB, [('"B", "V", "W", "i", "u")', '"B", "V", "i", "u")')]),
 ("s08-version", "S08", LB, [("                if '@@' in fields[2]: fields[2] = fields[2].split('@@')[0]", "                fields[2] = fields[2].split('@')[0]")]),
 ("s08-last-lib", "S08", CG, [("        for dll in self.searched_dlls:\n            try:\n                getattr(dll, name)", "        found = getattr(self, '_last', None)\n        for dll in ([found] if found is not None else []) + list(self.searched_dlls):\n            self._last = dll\n            try:\n                getattr(dll, name)")]),
 ("s08-key", "S08", CG, [("        if libraries.get(library._name, library._filepath) != library._filepath:\n            return library._filepath\n", "        if os.path.basename(library._filepath) != library._name:\n            return library._filepath\n")]),
 ("s09-onetry", "S09", CG, [("        print(\"except AttributeError:\", file=self.stream)\n        print(\"    pass\", file=self.stream)\n\n        self.names.append(func.name)", "        print(\"except (AttributeError, OSError):\", file=self.stream)\n        print(\"    pass\", file=self.stream)\n\n        self.names.append(func.name)")]),
 ("s09-libgone", "S09", CG, [("            print(\"_libraries[%r] =%s ctypes.CDLL(%r%s)\" % (key, stub_comment, library._filepath, global_flag),\n                  file=self.imports)", "            print(\"try:\\n    _libraries[%r] =%s ctypes.CDLL(%r%s)\\nexcept OSError:\\n    _libraries[%r] = None\" % (key, stub_comment, library._filepath, global_flag, key),\n                  file=self.imports)")]),
 ("s09-argtypes-after", "S09", CG, [("        print(\"    %s.argtypes = [%s]\" % (func.name, \", \".join(args)), file=self.stream)", "        print(\"    _f = %s\\n    _f.argtypes = [%s]\" % (func.name, \", \".join(args)), file=self.stream)")]),
 ("s10-shared-default", "S10", ST, [("                        default_ = type_(0).restype().value", "                        default_ = None if len(fields) > 3 else type_(0).restype().value")]),
 ("s10-kw", "S10", ST, [("        bound_fields = dict(bound_fields)\n", "")]),
 ("s10-cache-by-cb", "S10", ST, [("                        fields[name] = (\n                            type_((lambda callback: lambda *args: callback(*args))(\n                                bound_fields[name]))\n                        )", "                        key = (name, id(bound_fields[name]))\n                        if key not in cls.__dict__.get('_thunks', {}):\n                            if '_thunks' not in cls.__dict__: cls._thunks = {}\n                            cls._thunks[key] = type_((lambda callback: lambda *args: callback(*args))(bound_fields[name]))\n                        fields[name] = cls._thunks[key]")]),
 ("s11-cache-by-name", "S11", PT, [("        if pointee in _pointer_t_type_cache:\n            return _pointer_t_type_cache[pointee]", "        if clsname in _pointer_t_type_cache:\n            return _pointer_t_type_cache[clsname]"), ("        _pointer_t_type_cache[pointee] = _class", "        _pointer_t_type_cache[clsname] = _class")]),
 ("s11-weakcache", "S11", PT, [("    _pointer_t_type_cache = {}", "    import weakref\n    _pointer_t_type_cache = weakref.WeakValueDictionary()")]),
 ("s12-nodir", "S12", IN, [("            if os.path.isdir(__library_path):\n                cindex.Config.set_library_path(__library_path)\n            else:\n                cindex.Config.set_library_file(__library_path)", "            if not os.path.isfile(__library_path):\n                cindex.Config.set_library_path(__library_path)\n            else:\n                cindex.Config.set_library_file(__library_path)")]),
 ("s12-attr", "S12", IN, [("        except (cindex.LibclangError, AttributeError):", "        except cindex.LibclangError:")]),
 ("s12-env-exclusive", "S12", IN, [("    __libs.extend(__find_clang_libraries())\n", "    if not __libs:\n        __libs.extend(__find_clang_libraries())\n")]),
 ("s12-dedupe-last", "S12", IN, [("    return _libs\n\n\ndef clang_version", "    return list(dict.fromkeys(reversed(_libs)))[::-1]\n\n\ndef clang_version")]),
 ("s13-default-share", "S13", CF, [("        self.clang_opts = []\n        if sys", "        if sys")]),
 ("s13-sort", "S13", CG, [("        if len(self.cfg.symbols) == 0:\n            return\n", "        if len(self.cfg.symbols) == 0:\n            return\n        self.cfg.symbols.sort()\n")]),
 ("s13-flags-append", "S13", CP, [("        self.flags = flags\n        # the target", "        self.flags = flags\n        if '-fparse-all-comments' not in flags and len(flags) > 1: flags.append('-fparse-all-comments')\n        # the target")]),
 ("s13-class-types", "S13", CF, [("        self.types = types\n", "        CodegenConfig.types = self.types = types\n")]),
 ("s13-known", "S13", CF, [("        for name in options.modules:\n", "        self.known_symbols = self._known\n        for name in options.modules:\n"), ("    _type_table = {", "    _known = {}\n    _type_table = {")]),
 ("s14-slice", "S14", SC, [("    return ctypes.cast(string, __POINTER_TYPE__(ctypes.c_char))", "    return ctypes.cast(string.value and ctypes.c_char_p(string.value), __POINTER_TYPE__(ctypes.c_char))")]),
 ("s14-nul", "S14", SC, [("    if value is not None and encoding is not None:", "    if value and encoding is not None:")]),
]
