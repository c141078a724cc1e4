From a907c0f720625fa5cb914778162a25f69616d021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 01/25] fix: keep target-dependent ctypes names per parser
 instance

Clang_Parser.make_ctypes_convertor wrote the names for the current target
in the class attribute, so creating a parser for one target changed the
output of every other parser that was alive in the process.
---
 ctypeslib/codegen/clangparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 5c92a06..0939aa1 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -77,6 +77,8 @@ class Clang_Parser:
         self.tu = None
         self.tu_options = None
         self.flags = flags
+        # the target dependent names are set for this parsing instance only
+        self.ctypes_typename = dict(self.ctypes_typename)
         self.ctypes_sizes = {}
         self.init_parsing_options()
         self.make_ctypes_convertor(flags)
-- 
2.43.0


From f3d06f4328ffc21b9c82252a7da8be23f95c351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 02/25] fix: make the emulated pointer type cache local to the
 generated module

The cache was an attribute of the ctypes module that every generated module
reset when loaded, and was keyed by class name: loading a second module made
equal pointers of the first one different types, and pointers to types of the
same name in different modules, with different sizes, were mixed up.
---
 ctypeslib/data/pointer_type.tpl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/data/pointer_type.tpl b/ctypeslib/data/pointer_type.tpl
index 558eecf..5604fc6 100644
--- a/ctypeslib/data/pointer_type.tpl
+++ b/ctypeslib/data/pointer_type.tpl
@@ -11,7 +11,7 @@ else:
     # ['__module__', 'from_param', '_type_', '__dict__', '__weakref__', '__doc__']
     # but the class should be submitted to a unique instance for each base type
     # to that if A == B, POINTER_T(A) == POINTER_T(B)
-    ctypes._pointer_t_type_cache = {}
+    _pointer_t_type_cache = {}
     def POINTER_T(pointee):
         # a pointer should have the same length as LONG
         fake_ptr_base_type = ctypes.__REPLACEMENT_TYPE__
@@ -21,8 +21,8 @@ else:
             clsname = 'c_void'
         else:
             clsname = pointee.__name__
-        if clsname in ctypes._pointer_t_type_cache:
-            return ctypes._pointer_t_type_cache[clsname]
+        if pointee in _pointer_t_type_cache:
+            return _pointer_t_type_cache[pointee]
         # make template
         class _T(_ctypes._SimpleCData,):
             _type_ = '__REPLACEMENT_TYPE_CHAR__'
@@ -36,5 +36,5 @@ else:
             def __init__(self, **args):
                 raise IncorrectWordSizeError('This is not a ctypes pointer. It is not instanciable.')
         _class = type('LP_%d_%s'%(__POINTER_SIZE__, clsname), (_T,),{})
-        ctypes._pointer_t_type_cache[clsname] = _class
+        _pointer_t_type_cache[pointee] = _class
         return _class
-- 
2.43.0


From 27ec9374f1d3e5cdc4cc529e624a73e0ac8b819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 03/25] fix: do not share list options between CodegenConfig
 instances

The list and dict options were class attributes, modifying them in place
changed every other configuration, including later default ones.
---
 ctypeslib/codegen/config.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ctypeslib/codegen/config.py b/ctypeslib/codegen/config.py
index 0f8c6ca..605f4d4 100644
--- a/ctypeslib/codegen/config.py
+++ b/ctypeslib/codegen/config.py
@@ -40,6 +40,12 @@ class CodegenConfig:
 
     def __init__(self):
         self._init_types()
+        # mutable options belong to one configuration only
+        self.symbols = []
+        self.expressions = []
+        self.preloaded_dlls = []
+        self.known_symbols = {}
+        self.searched_dlls = []
         self.clang_opts = []
         if sys.platform == 'darwin':
             try:
-- 
2.43.0


From 945ad0271373fb94c0a63ad123ffed133085b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 04/25] fix: copy the parsed option lists into the
 configuration

Two configurations that were given the same parsed options shared their
symbols, expressions and preloaded_dlls lists.
---
 ctypeslib/codegen/config.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ctypeslib/codegen/config.py b/ctypeslib/codegen/config.py
index 605f4d4..1cd0c83 100644
--- a/ctypeslib/codegen/config.py
+++ b/ctypeslib/codegen/config.py
@@ -55,16 +55,15 @@ class CodegenConfig:
             self.clang_opts.extend(['-isysroot', sysroot])
 
     def parse_options(self, options):
-        self.symbols = options.symbols
-        self.expressions = options.expressions
-        if options.expressions:
-            self.expressions = list(map(re.compile, options.expressions))
+        # the options may be parsed into several configurations
+        self.symbols = list(options.symbols)
+        self.expressions = list(map(re.compile, options.expressions))
         self.verbose = options.verbose
         self.generate_comments = options.generate_comments
         self.generate_docstrings = options.generate_docstrings
         self.generate_locations = options.generate_locations
         self.filter_location = not options.generate_includes
-        self.preloaded_dlls = options.preload
+        self.preloaded_dlls = list(options.preload)
         # List exported symbols from libraries
         self.searched_dlls = [Library(name, nm=options.nm) for name in options.dll]
         self._parse_options_clang_opts(options)
-- 
2.43.0


From 78c233286936db5ad147167f939417bdfc12210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 05/25] fix: do not replace the caller's preloaded_dlls with
 library objects

Translating overwrote cfg.preloaded_dlls with Library/CDLL objects: the
generated module loaded a library named after the repr (with the address) of
that object, and using the configuration a second time raised a TypeError.
---
 ctypeslib/codegen/codegenerator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 7d9d9fa..effd054 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -1024,10 +1024,12 @@ class CodeTranslator:
         self.generator = None
         self.items = []
         self.filtered_items = []
+        self.preloaded_dlls = []
 
     def preload_dlls(self):
         # FIXME
-        self.cfg.preloaded_dlls = [Library(name, nm="nm") for name in self.cfg.preloaded_dlls]
+        # the configuration belongs to the caller: it keeps the library names
+        self.preloaded_dlls = [Library(name, nm="nm") for name in self.cfg.preloaded_dlls]
 
     def make_clang_parser(self):
         self.parser = clangparser.Clang_Parser(self.cfg.clang_opts)
-- 
2.43.0


From 292928378c3dc7abb31e3b8d77ba4298aaf7bdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 06/25] fix: allow libraries given by name to be searched for
 functions

-l m (or any name that is not a file) gave a CDLL object, which has no
_filepath, so the first function found in it aborted the code generation.
---
 ctypeslib/library.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/library.py b/ctypeslib/library.py
index d584b9c..83d9628 100644
--- a/ctypeslib/library.py
+++ b/ctypeslib/library.py
@@ -23,7 +23,10 @@ class LibraryMeta(type):
             # Maybe 'name' is not a library name in the linker style,
             # give CDLL a last chance to find the library.
             path = name
-        return CDLL(path, mode=mode)
+        library = CDLL(path, mode=mode)
+        # the code generator needs the path of any kind of library
+        library._filepath = path
+        return library
 
 
 class Library(metaclass=LibraryMeta):
-- 
2.43.0


From d5585bd533152fb47cf80d072059e83cb8aebc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 07/25] fix: find weak, indirect, unique and bss symbols in
 searched libraries

Only some of the nm symbol kinds of exported symbols were accepted, so that
for example puts (weak in glibc) was bound to the stub although libc.so.6
was listed.
---
 ctypeslib/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/library.py b/ctypeslib/library.py
index 83d9628..fb65409 100644
--- a/ctypeslib/library.py
+++ b/ctypeslib/library.py
@@ -49,7 +49,7 @@ class Library(metaclass=LibraryMeta):
         output = subprocess.check_output(cmd, universal_newlines=True)
         for line in output.split('\n'):
             fields = line.split(' ', 2)
-            if len(fields) >= 3 and fields[1] in ("T", "D", "G", "R", "S"):
+            if len(fields) >= 3 and fields[1] in ("T", "D", "G", "R", "S", "B", "V", "W", "i", "u"):
                 if '@@' in fields[2]: fields[2] = fields[2].split('@@')[0]
                 self.__symbols[fields[2]] = fields[0]
 
-- 
2.43.0


From 2715f94090f6142e9c07a91799069b3ecc7cd523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 08/25] fix: keep libraries of the same name in different
 directories apart

The generated code indexed libraries by their base name, so functions of the
second library were looked up in the first one.
---
 ctypeslib/codegen/codegenerator.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index effd054..d7857ca 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -767,6 +767,13 @@ class Generator:
             self._stdcall_libraries = {}
             print("_stdcall_libraries = {}", file=self.imports)
 
+    @staticmethod
+    def _library_key(libraries, library):
+        # different libraries can have the same name in different directories
+        if libraries.get(library._name, library._filepath) != library._filepath:
+            return library._filepath
+        return library._name
+
     _dll_stub_issued = False
 
     def get_sharedlib(self, library, cc, stub=False):
@@ -788,11 +795,12 @@ class Generator:
         # generate windows call
         if cc == "stdcall":
             self.need_WinLibraries()
-            if library._name not in self._stdcall_libraries:
-                _ = "_stdcall_libraries[%r] =%s ctypes.WinDLL(%r)" % (library._name, stub_comment, library._filepath)
+            key = self._library_key(self._stdcall_libraries, library)
+            if key not in self._stdcall_libraries:
+                _ = "_stdcall_libraries[%r] =%s ctypes.WinDLL(%r)" % (key, stub_comment, library._filepath)
                 print(_, file=self.imports)
-                self._stdcall_libraries[library._name] = None
-            return "_stdcall_libraries[%r]" % library._name
+                self._stdcall_libraries[key] = library._filepath
+            return "_stdcall_libraries[%r]" % key
 
         # generate clinux call
         self.need_CLibraries()
@@ -800,11 +808,12 @@ class Generator:
             global_flag = ", mode=ctypes.RTLD_GLOBAL"
         else:
             global_flag = ""
-        if library._name not in self._c_libraries:
-            print("_libraries[%r] =%s ctypes.CDLL(%r%s)" % (library._name, stub_comment, library._filepath, global_flag),
+        key = self._library_key(self._c_libraries, library)
+        if key not in self._c_libraries:
+            print("_libraries[%r] =%s ctypes.CDLL(%r%s)" % (key, stub_comment, library._filepath, global_flag),
                   file=self.imports)
-            self._c_libraries[library._name] = None
-        return "_libraries[%r]" % library._name
+            self._c_libraries[key] = library._filepath
+        return "_libraries[%r]" % key
 
     _STRING_defined = False
 
-- 
2.43.0


From 39ff08bd5ac5af06a777bdecfcb4411b7849ca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 09/25] fix: remove the copy of stdin, and give it a fixed name

The temporary copy of the standard input was never removed, whether the
translation succeeded or failed. Its random name was part of the names of the
unnamed records, so that the output was different in every run.
---
 ctypeslib/clang2py.py | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/ctypeslib/clang2py.py b/ctypeslib/clang2py.py
index df7a857..f00484b 100755
--- a/ctypeslib/clang2py.py
+++ b/ctypeslib/clang2py.py
@@ -11,6 +11,7 @@ import argparse
 import logging
 import os
 import platform
+import shutil
 import sys
 import tempfile
 import traceback
@@ -68,22 +69,37 @@ class Input:
     def __init__(self, options):
         self.files = []
         self._stdin = None
-        for in_file in options.files:
-            # stdin case
-            if in_file == sys.stdin:
-                # pylint: disable-next=consider-using-with
-                _stdin = tempfile.NamedTemporaryFile(mode="w", prefix="stdin", suffix=".c", delete=False)
-                _stdin.write(in_file.read())
-                in_file = _stdin
-            self.files.append(in_file.name)
-            in_file.close()
+        self._stdin_dir = None
+        try:
+            for in_file in options.files:
+                # stdin case
+                if in_file == sys.stdin:
+                    self.files.append(self._copy_stdin(in_file))
+                    continue
+                self.files.append(in_file.name)
+                in_file.close()
+        except BaseException:
+            self._cleanup()
+            raise
+
+    def _copy_stdin(self, stdin):
+        if self._stdin is None:
+            self._stdin_dir = tempfile.mkdtemp(prefix="clang2py")
+            # the name of the file is used in the names of the unnamed records
+            self._stdin = os.path.join(self._stdin_dir, "stdin.c")
+            with open(self._stdin, "w", encoding=stdin.encoding, errors=stdin.errors) as copy:
+                copy.write(stdin.read())
+        return self._stdin
+
+    def _cleanup(self):
+        if self._stdin_dir is not None:
+            shutil.rmtree(self._stdin_dir, ignore_errors=True)
 
     def __enter__(self):
         return self
 
     def __exit__(self, exc_type, exc_value, ecx_tb):
-        if self._stdin:
-            os.remove(self._stdin.name)
+        self._cleanup()
         return False
 
 
-- 
2.43.0


From 5149331e37ea51d1d1f7c69382a6d7ae683be735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 10/25] fix: write the output file in the encoding the
 generated code declares

The encoding of the locale was used: with a non-UTF-8 locale the output was
invalid or failed on non-ASCII text.
---
 ctypeslib/clang2py.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/clang2py.py b/ctypeslib/clang2py.py
index f00484b..97c0d25 100755
--- a/ctypeslib/clang2py.py
+++ b/ctypeslib/clang2py.py
@@ -112,8 +112,9 @@ class Output:
             self.stream = sys.stdout
             self.output_file = None
         else:
-            # pylint: disable-next=unspecified-encoding,consider-using-with
-            self.stream = open(options.output, "w")
+            # the generated code declares this encoding
+            # pylint: disable-next=consider-using-with
+            self.stream = open(options.output, "w", encoding="utf-8")
             self.output_file = self.stream
 
     def __enter__(self):
-- 
2.43.0


From d2d1c51263f557c022245a7718ba43c49b25a474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 11/25] fix: generate the dependencies of base classes in a
 fixed order

They were kept in a set of objects hashed by address, the order of the
generated code changed from run to run.
---
 ctypeslib/codegen/codegenerator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index d7857ca..94c5481 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -551,7 +551,7 @@ class Generator:
             return
         self.enable_structure_type()
         self._structures += 1
-        depends = set()
+        depends = {}  # ordered, the output must not depend on hash values
         # We only print a empty struct.
         if struct.members is None:
             log.info("No members for: %s", struct.name)
@@ -564,8 +564,8 @@ class Generator:
             del self.done[struct]
         # checks members dependencies in bases
         for b in struct.bases:
-            depends.update([self.get_undeclared_type(m.type) for m in b.members])
-        depends.discard(None)
+            depends.update((self.get_undeclared_type(m.type), None) for m in b.members)
+        depends.pop(None, None)
         if len(depends) > 0:
             log.debug("Generate %s DEPENDS for Bases %s", struct.name, depends)
             for dep in depends:
-- 
2.43.0


From e62ac629e3ad75bec6a7872679213d98c9e689a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 12/25] fix: use the clang options of the configuration in
 translate()

The options were only used for the sizes of the fundamental types, the input
itself was parsed without them (and invalid options were not noticed).
---
 ctypeslib/codegen/codegenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 94c5481..a658317 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -1054,7 +1054,7 @@ class CodeTranslator:
     def parse_input_string(self, input_io):
         if self.parser is None:
             self.make_clang_parser()
-        self.parser.parse_string(input_io)
+        self.parser.parse_string(input_io, flags=self.cfg.clang_opts)
         # get the typedesc C types items
         self.items.extend(self.parser.get_result())
 
-- 
2.43.0


From ba4f7bd2ca1e43faca159569a792ecda21c82696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 13/25] fix: load modules with docstrings when a function is
 missing

The docstring was set outside of the try block, so a module generated with -d
raised a NameError if the library had lost one of its functions.
---
 ctypeslib/codegen/codegenerator.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index a658317..bc526e7 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -869,9 +869,6 @@ class Generator:
         if self.generate_comments:
             print("# %s(%s)" % (func.name, ", ".join(argnames)), file=self.stream)
         print("    %s.argtypes = [%s]" % (func.name, ", ".join(args)), file=self.stream)
-        print("except AttributeError:", file=self.stream)
-        print("    pass", file=self.stream)
-
         if self.generate_docstrings:
 
             def typeString(typ):
@@ -884,7 +881,7 @@ class Generator:
 
             argsAndTypes = zip([typeString(t) for t in func.iterArgTypes()], argnames)
             print(
-                '{funcname}.__doc__ = """{ret} {funcname}({args})\n'
+                '    {funcname}.__doc__ = """{ret} {funcname}({args})\n'
                 '    {file}:{line}"""'.format(
                     funcname=func.name,
                     args=", ".join(["%s %s" % i for i in argsAndTypes]),
@@ -894,6 +891,8 @@ class Generator:
                 ),
                 file=self.stream,
             )
+        print("except AttributeError:", file=self.stream)
+        print("    pass", file=self.stream)
 
         self.names.append(func.name)
         self._functiontypes += 1
-- 
2.43.0


From 5c1094bcf23205e9a7a5eee259cfab7ee39540f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 14/25] fix: Structure.bind left the given mapping empty and
 failed on bitfields

bind() deleted the entries of the mapping of the caller, which could not be
used for a second structure, and raised a ValueError for any structure with a
bitfield.
---
 ctypeslib/data/structure_type.tpl | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index d44a4b4..e35850d 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -66,7 +66,10 @@ class Structure(ctypes.Structure, AsDictMixin):
     @classmethod
     def bind(cls, bound_fields):
         fields = {}
-        for name, type_ in cls._fields_:
+        # do not modify the mapping of the caller
+        bound_fields = dict(bound_fields)
+        for field in cls._fields_:
+            name, type_ = field[:2]
             if hasattr(type_, "restype"):
                 if name in bound_fields:
                     if bound_fields[name] is None:
@@ -87,12 +90,10 @@ class Structure(ctypes.Structure, AsDictMixin):
                     fields[name] = type_((
                         lambda default_: lambda *args: default_)(default_))
             else:
-                # not a callback function, use default initialization
+                # not a callback function, zero is the default initialization
                 if name in bound_fields:
                     fields[name] = bound_fields[name]
                     del bound_fields[name]
-                else:
-                    fields[name] = type_()
         if len(bound_fields) != 0:
             raise ValueError(
                 "Cannot bind the following unknown callback(s) {}.{}".format(
-- 
2.43.0


From 919fcde33e5dbd8f7c19cdfa85c3089b4bff1aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 15/25] fix: skip candidate libraries that are not a clang
 library

A library that loads but has no clang_getClangVersion aborted the import of
ctypeslib with an AttributeError.
---
 ctypeslib/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/__init__.py b/ctypeslib/__init__.py
index 7774a27..6686b42 100644
--- a/ctypeslib/__init__.py
+++ b/ctypeslib/__init__.py
@@ -93,7 +93,8 @@ def __configure_clang_cindex():
                 cindex.Config.set_library_file(__library_path)
             # force-check that clang is configured properly
             clang_version()
-        except cindex.LibclangError:
+        except (cindex.LibclangError, AttributeError):
+            # not loadable, or not a clang library
             warnings.warn(f"Could not configure clang with library_path={__library_path}", RuntimeWarning)
             continue
         return __library_path
-- 
2.43.0


From 04ec2dadf75dc864dd1ca42556c86fd23fd0ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 16/25] fix: complete records that are declared before they are
 defined

A record that was first seen as a forward declaration was dropped when the
definition was in the same file, and had no size and no padding when the
definition was in another file. Fields of such a type had a wrong layout, and
a union declared in two files raised a DuplicateDefinitionException.
---
 ctypeslib/codegen/cursorhandler.py | 24 +++++++++++++++++++++---
 ctypeslib/codegen/handler.py       |  8 ++++++++
 ctypeslib/codegen/typehandler.py   | 12 ++++++------
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index ce08ebe..d33f367 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -32,6 +32,8 @@ class CursorHandler(ClangHandler):
 
     def __init__(self, parser):
         ClangHandler.__init__(self, parser)
+        # the records whose members are being parsed
+        self._open_records = set()
 
     def parse_cursor(self, cursor):
         mth = getattr(self, cursor.kind.name)
@@ -201,7 +203,7 @@ class CursorHandler(ClangHandler):
                 log.info('This param type is not declared: %s', _argtype_name)
                 _argtype = self.parse_cursor_type(_type)
             else:
-                _argtype = self.get_registered(_argtype_name)
+                _argtype = self.get_registered_type(_argtype_name, _argtype_decl)
         obj = typedesc.Argument(_name, _argtype)
         self.set_location(obj, cursor)
         self.set_comment(obj, cursor)
@@ -637,11 +639,16 @@ class CursorHandler(ClangHandler):
         # TODO unittest: try redefinition.
         # Find if a record definition was already parsed and registered
         if (self.is_registered(name) and
-                    self.get_registered(name).members is not None):
+                (name in self._open_records or
+                 self.get_registered(name).members is not None)):
             log.debug(
                 '_record_decl: %s is already registered with members',
                 name)
             return self.get_registered(name)
+        # the members come from the definition, if there is one
+        definition = cursor.get_definition()
+        if definition is not None and definition != cursor:
+            return self._record_decl(definition, _output_type, num)
         # CPP bases
         bases = []
         for c in cursor.get_children():
@@ -655,6 +662,8 @@ class CursorHandler(ClangHandler):
             # produce an empty structure declaration
             size = align = 0
             log.debug('_record_decl: name: %s CXTypeLayoutError_Incomplete', name)
+            if self.is_registered(name):
+                return self.get_registered(name)
             obj = _output_type(name, align, None, bases, size, packed=False)
             self.set_location(obj, cursor)
             self.set_comment(obj, cursor)
@@ -696,6 +705,13 @@ class CursorHandler(ClangHandler):
         else:
             obj = self.get_registered(name)
             declared_instance = False
+            # the definition of a record which was only declared before,
+            # maybe in a file where it is incomplete.
+            obj.size = size
+            obj.align = align
+            obj.bases = bases
+            self.set_location(obj, cursor)
+            self.set_comment(obj, cursor)
         # capture members declaration
         members = []
         # Go and recurse through fields
@@ -703,9 +719,11 @@ class CursorHandler(ClangHandler):
         decl_f = [f.type.get_declaration() for f in fields]
         log.debug('Fields: %s',
                   str(['%s/%s' % (f.kind.name, f.spelling) for f in fields]))
+        self._open_records.add(name)
         for field in fields:
             log.debug('creating FIELD_DECL for %s/%s', field.kind.name, field.spelling)
             members.append(self.FIELD_DECL(field))
+        self._open_records.discard(name)
         # FIXME BUG clang: anonymous structure field with only one anonymous field
         # is not a FIELD_DECL. does not appear in get_fields() !!!
         #
@@ -1062,7 +1080,7 @@ class CursorHandler(ClangHandler):
                 log.debug(
                     'FIELD_DECL: used type from cache: %s',
                     _decl_name)
-                _type = self.get_registered(_decl_name)
+                _type = self.get_registered_type(_decl_name, _decl)
                 # then we shortcut
             else:
                 # is it always the case ?
diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index 021247a..4a4af19 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -57,6 +57,14 @@ class ClangHandler(object):
     def is_registered(self, name):
         return self.parser.is_registered(name)
 
+    def get_registered_type(self, name, decl):
+        """Get the registered type of a declaration. A record that was only
+        declared so far is completed if the declaration defines it."""
+        obj = self.get_registered(name)
+        if typedesc.is_record(obj) and obj.members is None and decl.is_definition():
+            return self.parse_cursor(decl)
+        return obj
+
     def remove_registered(self, name):
         return self.parser.remove_registered(name)
 
diff --git a/ctypeslib/codegen/typehandler.py b/ctypeslib/codegen/typehandler.py
index 1c535ef..0bb443d 100644
--- a/ctypeslib/codegen/typehandler.py
+++ b/ctypeslib/codegen/typehandler.py
@@ -78,7 +78,7 @@ class TypeHandler(ClangHandler):
         _decl = _cursor_type.get_declaration()
         name = self.get_unique_name(_decl)
         if self.is_registered(name):
-            obj = self.get_registered(name)
+            obj = self.get_registered_type(name, _decl)
         else:
             log.debug('Was in TYPEDEF but had to parse record declaration for %s', name)
             obj = self.parse_cursor(_decl)
@@ -92,7 +92,7 @@ class TypeHandler(ClangHandler):
         _decl = _cursor_type.get_declaration()
         name = self.get_unique_name(_decl)
         if self.is_registered(name):
-            obj = self.get_registered(name)
+            obj = self.get_registered_type(name, _decl)
         else:
             log.warning('Was in ENUM but had to parse record declaration ')
             obj = self.parse_cursor(_decl)
@@ -106,7 +106,7 @@ class TypeHandler(ClangHandler):
         _decl = _cursor_type.get_declaration()
         name = self.get_unique_name(_decl)
         if self.is_registered(name):
-            obj = self.get_registered(name)
+            obj = self.get_registered_type(name, _decl)
         else:
             log.warning('Was in ELABORATED but had to parse record declaration ')
             obj = self.parse_cursor(_decl)
@@ -145,7 +145,7 @@ class TypeHandler(ClangHandler):
             decl_name = self.get_unique_name(decl)
             # Type is already defined OR will be defined later.
             if self.is_registered(decl_name):
-                p_type = self.get_registered(decl_name)
+                p_type = self.get_registered_type(decl_name, decl)
             else:  # forward declaration, without looping
                 log.debug(
                     'POINTER: %s type was not previously declared',
@@ -251,7 +251,7 @@ class TypeHandler(ClangHandler):
         #_decl_cursor = list(_decl.get_children())[0] # record -> decl
         name = self.get_unique_name(_decl)  # _cursor)
         if self.is_registered(name):
-            obj = self.get_registered(name)
+            obj = self.get_registered_type(name, _decl)
         else:
             log.debug('Was in RECORD but had to parse record declaration for %s',name)
             obj = self.parse_cursor(_decl)
@@ -266,7 +266,7 @@ class TypeHandler(ClangHandler):
         _decl = _cursor_type.get_declaration()
         name = self.get_unique_name(_decl)  # _cursor)
         if self.is_registered(name):
-            obj = self.get_registered(name)
+            obj = self.get_registered_type(name, _decl)
         else:
             obj = self.parse_cursor(_decl)
         return obj
-- 
2.43.0


From 9be54b7d74c2d99d39cb7c8a200ea68a3d2ec1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 17/25] fix: pad unions to their full size

The tail padding was computed as if the last member followed the others: a
union whose size is rounded up for its alignment was too small, and so was
every record containing it.
---
 ctypeslib/codegen/cursorhandler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index d33f367..7433abf 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -914,6 +914,12 @@ class CursorHandler(ClangHandler):
             offset = member.offset + member.bits
             prev_member = member
         # tail padding if necessary
+        if isinstance(s, typedesc.Union):
+            # the members overlap, the padding covers all of the union
+            if max((m.bits for m in members), default=0) < s.size * 8:
+                self._make_padding(members, padding_nb, 0, s.size * 8)
+            s.members = members
+            return
         if s.size * 8 != offset:
             length = s.size * 8 - offset
             log.debug(
-- 
2.43.0


From 6519df7d2f5fe1c4b89cb45386ee34c55551e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 18/25] fix: complete enumerations that are declared before
 they are defined

An enumeration first seen as a forward declaration in another file had none
of its values.
---
 ctypeslib/codegen/cursorhandler.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 7433abf..9912744 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -151,11 +151,18 @@ class CursorHandler(ClangHandler):
     def ENUM_DECL(self, cursor):  # noqa
         """Gets the enumeration declaration."""
         name = self.get_unique_name(cursor)
-        if self.is_registered(name):
-            return self.get_registered(name)
         align = cursor.type.get_align()
         size = cursor.type.get_size()
-        obj = self.register(name, typedesc.Enumeration(name, size, align))
+        if self.is_registered(name):
+            obj = self.get_registered(name)
+            if (not isinstance(obj, typedesc.Enumeration) or obj.values
+                    or not cursor.is_definition()):
+                return obj
+            # it was only declared until now
+            obj.size = size
+            obj.align = align
+        else:
+            obj = self.register(name, typedesc.Enumeration(name, size, align))
         self.set_location(obj, cursor)
         self.set_comment(obj, cursor)
         # parse all children
-- 
2.43.0


From 434de5d2a5d3a69ad4030926a23d16f27853e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 19/25] fix: also look for clang libraries newer than version
 16

---
 ctypeslib/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/__init__.py b/ctypeslib/__init__.py
index 6686b42..7e9973a 100644
--- a/ctypeslib/__init__.py
+++ b/ctypeslib/__init__.py
@@ -31,8 +31,8 @@ def __find_clang_libraries():
     version_major = __clang_py_version__.split('.')[0]
     # try default system name
     v_list = [f"clang-{__clang_py_version__}", f"clang-{version_major}", "libclang", "clang"]
-    # tries clang version 16 to 7
-    v_list += [f"clang-{_}" for _ in range(16, 6, -1)]
+    # tries clang version 25 to 7
+    v_list += [f"clang-{_}" for _ in range(25, 6, -1)]
     # with the dotted form of clang 6.0 to 4.0
     v_list += [f"clang-{_:.1f}" for _ in range(6, 3, -1)]
     # clang 3 supported versions
-- 
2.43.0


From 758e60ce6ca614e52ae20168a9db2603017c75bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:59 +0000
Subject: [PATCH 20/25] fix: complete types that only another listed file's
 headers define

---
 ctypeslib/codegen/clangparser.py | 33 +++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 0939aa1..a1c1060 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -4,7 +4,7 @@ import logging
 import os
 import collections
 
-from clang.cindex import Index, TranslationUnit
+from clang.cindex import CursorKind, Index, TranslationUnit
 from clang.cindex import TypeKind
 
 from ctypeslib.codegen import cursorhandler
@@ -75,6 +75,7 @@ class Clang_Parser:
         self._unhandled = []
         self.fields = {}
         self.tu = None
+        self.__tus = []
         self.tu_options = None
         self.flags = flags
         # the target dependent names are set for this parsing instance only
@@ -127,11 +128,40 @@ class Clang_Parser:
             return
         self._parse_tu_diagnostics(translation_unit, filename)
         self.tu = translation_unit
+        self.__tus.append(translation_unit)
         root = self.tu.cursor
         for node in root.get_children():
             self.start_element(node)
         return
 
+    def __incomplete_names(self):
+        return {
+            name
+            for name, item in self.all.items()
+            if (typedesc.is_record(item) and item.members is None)
+            or (isinstance(item, typedesc.Enumeration) and not item.values)
+        }
+
+    def __complete_types(self):
+        """
+        Complete the records and enumerations that were only declared in the file
+        that needs them, when another file sees their definition in a header.
+        """
+        kinds = (CursorKind.STRUCT_DECL, CursorKind.UNION_DECL, CursorKind.ENUM_DECL)
+        previous = None
+        incomplete = self.__incomplete_names()
+        # the definition of a record can need other records
+        while incomplete and incomplete != previous:
+            for translation_unit in self.__tus:
+                for node in translation_unit.cursor.get_children():
+                    if (
+                        node.kind in kinds
+                        and node.is_definition()
+                        and self.cursorkind_handler.get_unique_name(node) in incomplete
+                    ):
+                        self.parse_cursor(node)
+            previous, incomplete = incomplete, self.__incomplete_names()
+
     def parse_string(self, input_data, lang="c", all_warnings=False, flags=None):
         """Use this parser on a memory string/file, instead of a file on disk"""
         translation_unit = util.get_tu(input_data, lang, all_warnings, flags)
@@ -384,6 +414,7 @@ typedef void* pointer_t;""",
         )
         # typedesc.Field) #???
 
+        self.__complete_types()
         self.get_macros(self.cpp_data.get("functions"))
         # fix all objects after that all are resolved
         remove = []
-- 
2.43.0


From 83de873fe05018e627551c07ea1c85a9b62c6dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 21/25] fix: write to output streams that are false in a
 boolean context

---
 ctypeslib/codegen/codegenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index bc526e7..ee1f7f0 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -1151,7 +1151,7 @@ def translate(input_io, outfile=None, cfg=None):
     translator.preload_dlls()
     translator.parse_input_string(input_io)
     # gen python code
-    if outfile:
+    if outfile is not None:
         return translator.generate_code(outfile)
     # otherwise return python
     output = io.StringIO()
@@ -1180,7 +1180,7 @@ def translate_files(source_files, outfile=None, cfg: config.CodegenConfig=None):
     else:
         translator.parse_input_file(source_files)
     log.debug("Input was parsed")
-    if outfile:
+    if outfile is not None:
         return translator.generate_code(outfile)
     # otherwise return python
     output = io.StringIO()
-- 
2.43.0


From ce6ae79a015a3befd9cb6628f8990f1aad5bb151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 22/25] fix: do not report success without a standard output

---
 ctypeslib/clang2py.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/clang2py.py b/ctypeslib/clang2py.py
index 97c0d25..10c77a3 100755
--- a/ctypeslib/clang2py.py
+++ b/ctypeslib/clang2py.py
@@ -109,6 +109,9 @@ class Output:
     def __init__(self, options):
         # handle output
         if options.output == "-":
+            if sys.stdout is None:
+                # the descriptor is closed
+                raise OSError("There is no standard output to write to")
             self.stream = sys.stdout
             self.output_file = None
         else:
-- 
2.43.0


From af2055886d28416a3243818fec30f533abc15381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 23/25] fix: variables of union type were given the description
 of the parser as value

---
 ctypeslib/codegen/codegenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index ee1f7f0..ac57078 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -400,7 +400,7 @@ class Generator:
                 else:
                     init_value = self.type_name(tp.typ, False) + "()"
 
-        elif isinstance(tp.typ, typedesc.Structure):
+        elif isinstance(tp.typ, (typedesc.Structure, typedesc.Union)):
             init_value = self.type_name(tp.typ, False)
         elif isinstance(tp.typ, typedesc.FundamentalType) and tp.typ.name in [
             "c_ubyte",
-- 
2.43.0


From 54d542fd2bd13c5b5a452b8db0a9c9638eb7138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 24/25] fix: parse listed files that another file only saw in
 part

A listed file was skipped as soon as another file had included it, with
whatever macros that file defined: the declarations hidden by them were
lost or kept depending on the order of the files.
---
 ctypeslib/codegen/clangparser.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index a1c1060..d660fc6 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -4,7 +4,7 @@ import logging
 import os
 import collections
 
-from clang.cindex import CursorKind, Index, TranslationUnit
+from clang.cindex import CursorKind, Diagnostic, Index, TranslationUnit
 from clang.cindex import TypeKind
 
 from ctypeslib.codegen import cursorhandler
@@ -87,6 +87,7 @@ class Clang_Parser:
         self.typekind_handler = typehandler.TypeHandler(self)
         self.__filter_location = None
         self.__processed_location = set()
+        self.__parsed_files = set()
 
     def init_parsing_options(self):
         """Set the Translation Unit to skip functions bodies per default."""
@@ -119,13 +120,22 @@ class Clang_Parser:
         . for each VAR_DECL, register a Variable
         . for each TYPEREF ??
         """
-        if os.path.abspath(filename) in self.__processed_location:
+        filepath = os.path.abspath(filename)
+        if filepath in self.__parsed_files:
             return
+        self.__parsed_files.add(filepath)
         index = Index.create()
         translation_unit = index.parse(filename, self.flags, options=self.tu_options)
         if not translation_unit:
             log.warning("unable to load input")
             return
+        if filepath in self.__processed_location:
+            # another file included this one. It can have seen a part of it only, but
+            # it can also have given the context this one needs, and lacks by itself.
+            severities = [d.severity for d in translation_unit.diagnostics]
+            if severities and max(severities) == Diagnostic.Error:
+                log.info("%s is only parsed as an included file", filename)
+                return
         self._parse_tu_diagnostics(translation_unit, filename)
         self.tu = translation_unit
         self.__tus.append(translation_unit)
-- 
2.43.0


From 921f5efdbc9b559ea064e9b662cbe97a36b61498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:25 +0000
Subject: [PATCH 25/25] fix: functions named like an attribute of the library
 object were not bound to it

A function named like something the library object has (_name, _handle, _filepath)
passed for exported by any library, and one that a library does export could not be
reached, nor one with leading and trailing double underscores.
---
 ctypeslib/codegen/codegenerator.py | 9 +++++++--
 ctypeslib/library.py               | 7 +++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index ac57078..1d0f894 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -742,7 +742,8 @@ class Generator:
             name = "_%s" % name
         for dll in self.searched_dlls:
             try:
-                getattr(dll, name)
+                # not an attribute lookup: it finds the attributes of the library object too
+                dll[name]
             except AttributeError:
                 pass
             else:
@@ -864,7 +865,11 @@ class Generator:
             print("# %s %s" % func.location, file=self.stream)
         # Generate the function decl code
         print("try:", file=self.stream)
-        print("    %s = %s.%s" % (func.name, libname, func.name), file=self.stream)
+        if library and func.name.startswith("_"):
+            # the library object can have an attribute of that name, or refuse to look it up
+            print("    %s = %s[%r]" % (func.name, libname, func.name), file=self.stream)
+        else:
+            print("    %s = %s.%s" % (func.name, libname, func.name), file=self.stream)
         print("    %s.restype = %s" % (func.name, self.type_name(func.returns)), file=self.stream)
         if self.generate_comments:
             print("# %s(%s)" % (func.name, ", ".join(argnames)), file=self.stream)
diff --git a/ctypeslib/library.py b/ctypeslib/library.py
index fb65409..368c4b9 100644
--- a/ctypeslib/library.py
+++ b/ctypeslib/library.py
@@ -60,4 +60,11 @@ class Library(metaclass=LibraryMeta):
             pass
         raise AttributeError(name)
 
+    # like CDLL, for exported names only
+    def __getitem__(self, name):
+        try:
+            return self.__symbols[name]
+        except KeyError:
+            raise AttributeError(name) from None
+
 
-- 
2.43.0

