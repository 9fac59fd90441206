From 8671e568351146495754c3e0a1ba4734c866d693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:13 +0000
Subject: [PATCH 01/34] fix: saving a document replaces the file atomically and
 durably

A failed, killed or interrupted save truncated the document in place.
---
 metatab/cli.py  |  5 ++---
 metatab/doc.py  |  5 ++---
 metatab/util.py | 53 +++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 57 insertions(+), 6 deletions(-)

diff --git a/metatab/cli.py b/metatab/cli.py
index 1463823..6649abd 100644
--- a/metatab/cli.py
+++ b/metatab/cli.py
@@ -90,7 +90,7 @@ def metatab():
         err("Failed to open '{}': {}".format(metadata_url, e))
 
     def write_or_print(t):
-        from pathlib import Path
+        from metatab.util import atomic_write
 
         if metadata_url.scheme != 'file':
             err("Can only use -w with local files")
@@ -99,8 +99,7 @@ def metatab():
         ext = 'txt' if args.out_type == 'line' else args.out_type
 
         if args.write_in_place:
-            with metadata_url.fspath.with_suffix('.'+ext).open('w') as f:
-                f.write(t)
+            atomic_write(metadata_url.fspath.with_suffix('.'+ext), t.encode('utf8'))
         else:
             print(t)
 
diff --git a/metatab/doc.py b/metatab/doc.py
index 1db299e..e973c49 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -23,7 +23,7 @@ from rowgenerators import parse_app_url
 from rowgenerators.exceptions import SourceError, AppUrlError
 
 from .terms import SectionTerm, RootSectionTerm, Term
-from .util import import_name_or_class
+from .util import atomic_write, import_name_or_class
 
 logger = logging.getLogger('doc')
 debug_logger = logging.getLogger('debug')
@@ -893,8 +893,7 @@ class MetatabDoc(object):
 
         debug_logger.debug("writing doc {}".format(str(path)))
 
-        with path.open('wb') as f:
-            f.write(content.encode('utf8'))
+        atomic_write(path, content.encode('utf8'))
 
         return path
 
diff --git a/metatab/util.py b/metatab/util.py
index 368ef30..b9ad56d 100644
--- a/metatab/util.py
+++ b/metatab/util.py
@@ -3,6 +3,7 @@
 
 """Classes to build a Metatab document
 """
+import errno
 import logging
 import os
 import shutil
@@ -36,6 +37,58 @@ def declaration_path(name):
     return path
 
 
+def atomic_write(path, content):
+    """Replace the contents of a file. Whatever fails, the file has either its old contents or all of the new
+    ones, and when this returns the new ones are on disk.
+
+    :param path: Path of the file to write
+    :param content: Bytes to write
+    """
+    from uuid import uuid4
+
+    path = str(path)
+
+    if exists(path) and not isfile(path):
+        # A device or a pipe can be written, but not replaced.
+        with open(path, 'wb') as f:
+            f.write(content)
+        return
+
+    path = os.path.realpath(path)
+    directory = dirname(path)
+    temp_path = join(directory, '.{}.tmp'.format(uuid4().hex))
+
+    try:
+        with open(temp_path, 'xb') as f:
+            f.write(content)
+            f.flush()
+            os.fsync(f.fileno())
+
+        if exists(path):
+            with open(path, 'rb+'):  # Don't replace a file that could not be written
+                pass
+            shutil.copymode(path, temp_path)
+
+        os.replace(temp_path, path)
+    except BaseException:
+        try:
+            os.unlink(temp_path)
+        except OSError:
+            pass
+        raise
+
+    if os.name == 'posix':
+        try:
+            fd = os.open(directory, os.O_RDONLY)
+            try:
+                os.fsync(fd)  # Make the new directory entry durable
+            finally:
+                os.close(fd)
+        except OSError as e:
+            if e.errno not in (errno.EACCES, errno.EINVAL, errno.ENOTSUP):  # Directories can't be synced here
+                raise
+
+
 # From http://stackoverflow.com/a/295466
 def slugify(value):
     """
-- 
2.43.0


From 638858fe16273da37187f613e861f44ce3214b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:13 +0000
Subject: [PATCH 02/34] fix: write the identifier and name assigned by a save
 into the saved file

---
 metatab/doc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index e973c49..59be60f 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -889,8 +889,6 @@ class MetatabDoc(object):
 
     def _write(self, content, path: pathlib.Path, ext=None):
 
-        self.cleanse()
-
         debug_logger.debug("writing doc {}".format(str(path)))
 
         atomic_write(path, content.encode('utf8'))
@@ -904,6 +902,8 @@ class MetatabDoc(object):
         if path.suffix != '.csv':
             raise MetatabError("Writing CSV file, but extension is wrong: {} ".format(str(path)))
 
+        self.cleanse()
+
         return self._write(self.as_csv(), path)
 
     def write_lines(self, path=None):
@@ -913,6 +913,8 @@ class MetatabDoc(object):
         if path.suffix != '.txt':
             raise MetatabError("Writing line (txt) file, but extension is wrong: {} ".format(str(path)))
 
+        self.cleanse()
+
         return self._write(self.as_lines(), path)
 
     def write(self, path=None):
-- 
2.43.0


From f680c955ff75f7d23209fe1a6199e6f36b288ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:13 +0000
Subject: [PATCH 03/34] fix: escape the column separator in values of the Lines
 format

---
 metatab/terms.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 057042f..5b419d6 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -940,9 +940,13 @@ class SectionTerm(Term):
     def lines(self):
         """Iterate over all of the rows as text lines"""
 
+        def escape(v):
+            # Unescaped pipes separate columns
+            return v.replace('|', r'\|') if isinstance(v, str) else v
+
         # Yield the section header
         if self.name != 'Root':
-            yield ('Section', '|'.join([self.value] + self.property_names))
+            yield ('Section', '|'.join(escape(e) for e in [self.value] + self.property_names))
 
         # Yield all of the rows for terms in the section
         for row in self.rows:
@@ -952,14 +956,14 @@ class SectionTerm(Term):
                 value = [value]
 
             term = term.replace('root.', '').title()
-            yield (term, value[0])
+            yield (term, escape(value[0]))
 
             children = list(zip(self.property_names, value[1:]))
 
             for prop, value in children:
                 if value and value.strip():
                     child_t = '.' + (prop.title())
-                    yield ("    "+child_t, value)
+                    yield ("    "+child_t, escape(value))
 
     def as_lines(self):
         return '\n'.join( '{}: {}'.format(t,v if v is not None else '') for t, v  in self.lines )
-- 
2.43.0


From 3e3939372aa2c43add64de48cb345f2df258df8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:37 +0000
Subject: [PATCH 04/34] fix: keep repeated properties of a term when writing it

---
 metatab/terms.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 5b419d6..1b67bdf 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -620,16 +620,22 @@ class Term(object):
         # if the section has any.
 
         properties = {tvm: self.value}
+        repeated = []  # A property array has only one place for each name
 
         for c in self.children:
             if c.is_terminal:
-                if c.record_term_lc:
+                if c.record_term_lc in properties:
+                    repeated.append(c)
+                elif c.record_term_lc:
                     # This is rare, but can happen if a property child is not given
                     # a property name by the section -- the "Section" term has a blank column.
                     properties[c.record_term_lc] = c.value
 
         yield (self.qualified_term, properties)
 
+        for c in repeated:
+            yield (c.qualified_term, c.value)
+
         # The non-terminal children have to get yielded normally -- they can't be arg-children
         for c in self.children:
             if not c.is_terminal:
-- 
2.43.0


From 3222f5c174bab0b8174ebe52cbcffa528c1b1156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:37 +0000
Subject: [PATCH 05/34] fix: converting a section to a dict does not change the
 section

A concurrent reader, or an interrupt, saw the section's terms as its children.
---
 metatab/terms.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 1b67bdf..0448091 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -543,10 +543,11 @@ class Term(object):
         return self._convert_to_dict(self, replace_value_names)
 
     @classmethod
-    def _convert_to_dict(cls, term, replace_value_names=True):
+    def _convert_to_dict(cls, term, replace_value_names=True, children=None):
         """Converts a record heirarchy to nested dicts.
 
         :param term: Root term at which to start conversion
+        :param children: Terms to use instead of the children of the root term
 
         """
 
@@ -555,11 +556,14 @@ class Term(object):
         if not term:
             return None
 
-        if term.children:
+        if children is None:
+            children = term.children
+
+        if children:
 
             d = OrderedDict()
 
-            for c in term.children:
+            for c in children:
 
                 if c.child_property_type == 'scalar':
                     d[c.record_term_lc] = cls._convert_to_dict(c, replace_value_names)
@@ -976,14 +980,7 @@ class SectionTerm(Term):
 
     def as_dict(self, replace_value_names=True):
         """Return the whole section as a dict"""
-        old_children = self.children
-        self.children = self.terms
-
-        d = super(SectionTerm, self).as_dict(replace_value_names)
-
-        self.children = old_children
-
-        return d
+        return self._convert_to_dict(self, replace_value_names, children=self.terms)
 
 
 class RootSectionTerm(SectionTerm):
-- 
2.43.0


From d419c59ffc5c3f572d134909e7f6412ac02f0a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:00 +0000
Subject: [PATCH 06/34] fix: as_version() does not change the version of the
 document

---
 metatab/doc.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 59be60f..d3d529e 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -128,7 +128,17 @@ class MetatabDoc(object):
 
         """
 
-        return self._generate_identity_name(ver)
+        # Generating the name sets the version, so do it in a copy of the root terms
+        doc = MetatabDoc(cache=self._cache, resolver=self.resolver)
+        doc.derived_terms = self.derived_terms
+
+        for t in self['Root']:
+            term = Term(t.join, t.value, doc=doc, section=doc.root)
+            doc.add_term(term)
+            for c in t.children:
+                term.new_child(c.record_term, c.value)
+
+        return doc._generate_identity_name(ver)
 
     @property
     def doc_dir(self):
-- 
2.43.0


From 72f8e4a9a513e1707624d7eb74fb709a73c277e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:21 +0000
Subject: [PATCH 07/34] fix: report errors in reading a Lines file instead of
 taking its name for text

Bare except clauses also swallowed interrupts.
---
 metatab/rowgen.py | 78 ++++++++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 41 deletions(-)

diff --git a/metatab/rowgen.py b/metatab/rowgen.py
index 0a40a3c..4371a96 100644
--- a/metatab/rowgen.py
+++ b/metatab/rowgen.py
@@ -2,7 +2,10 @@
 # MIT License, included in this distribution as LICENSE.txt
 
 """ """
-from rowgenerators import Source
+from errno import EINVAL, EISDIR, ENAMETOOLONG, ENOENT, ENOTDIR
+from pathlib import PurePath
+
+from rowgenerators import Source, Url
 from rowgenerators.source import Source
 from rowgenerators import SourceError
 
@@ -122,53 +125,46 @@ class TextRowGenerator(MetatabRowGenerator):
     def __init__(self, ref, cache=None, working_dir=None, path = None, **kwargs):
         super().__init__(ref, cache, working_dir, path, **kwargs)
 
-        while True:
-
-            try:
-                # Pathlib Path
-                with ref.open() as r:
-                    text = r.read()
-                break
-            except:
-                pass
-
-            try:
-                # Filehandle
-                text = ref.read()
-                break
-            except:
-                pass
+        text = self._read(ref)
 
-            try:
-                # Url
-                with ref.inner.fspath.open() as f:
-                    text = f.read()
-                break
-            except:
+        self._text = text
+        self._text_lines = text.splitlines()
+        self._path = path or '<none>'
 
-                pass
+    @staticmethod
+    def _read(ref):
+        """Return the text for a Url, a Path, a file handle, a file name or a string of text. Errors in opening or
+        reading a file are raised, rather than trying another sort of reference """
 
-            try:
-                # File name
-                with open(ref) as r:
-                    text = r.read()
-                break
-            except:
-                pass
+        if isinstance(ref, Url):
+            with ref.inner.fspath.open(encoding='utf8') as f:
+                return f.read()
 
-            try:
-                text = ref
-                text.splitlines()
-                break
-            except AttributeError:
-                pass
+        if isinstance(ref, PurePath):
+            with ref.open(encoding='utf8') as f:
+                return f.read()
 
+        if hasattr(ref, 'read'):  # Filehandle
+            return ref.read()
 
-            raise SourceError("Can't handle ref of type {}".format(type(ref)))
+        if hasattr(ref, 'open'):  # Some other sort of path
+            with ref.open() as f:
+                return f.read()
 
-        self._text = text
-        self._text_lines = text.splitlines()
-        self._path = path or '<none>'
+        if isinstance(ref, str):
+            try:
+                f = open(ref, encoding='utf8')
+            except ValueError:  # Not a possible file name, so it must be text
+                return ref
+            except OSError as e:
+                if e.errno in (ENOENT, ENOTDIR, EISDIR, ENAMETOOLONG, EINVAL):  # There is no file with this name
+                    return ref
+                raise
+
+            with f:
+                return f.read()
+
+        raise SourceError("Can't handle ref of type {}".format(type(ref)))
 
     @property
     def path(self):
-- 
2.43.0


From 6b893f4c04eeaa165551555cfaf91148df268e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:21 +0000
Subject: [PATCH 08/34] fix: add the module that the row generator entry points
 refer to

Loading a Lines file by URL, and the metatab program on one, failed with ModuleNotFoundError.
---
 metatab/rowgenerators.py | 6 ++++++
 1 file changed, 6 insertions(+)
 create mode 100644 metatab/rowgenerators.py

diff --git a/metatab/rowgenerators.py b/metatab/rowgenerators.py
new file mode 100644
index 0000000..37e7738
--- /dev/null
+++ b/metatab/rowgenerators.py
@@ -0,0 +1,6 @@
+# Copyright (c) 2017 Civic Knowledge. This file is licensed under the terms of the
+# MIT License, included in this distribution as LICENSE.txt
+
+"""Row generators, in the module that the 'rowgenerators' entry points refer to"""
+
+from metatab.rowgen import MetatabRowGenerator, TextRowGenerator, YamlMetatabSource
-- 
2.43.0


From 21450756cc8493f9eeb5aaa1123f3c3fcf645939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:51 +0000
Subject: [PATCH 09/34] fix: raise IncludeError, naming the include, for any
 failure to read an included file

Failures other than OSError and DownloadError, such as a broken download, escaped as they were.
---
 metatab/parser.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index efb820d..fb13db4 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -352,6 +352,8 @@ class TermParser(object):
 
                     yield t
 
+                    include_t = t
+
                     try:
 
                         sub_gen = get_generator(resolved.get_resource().get_target())
@@ -363,13 +365,13 @@ class TermParser(object):
                             yield last_section  # Re-assert the last section
 
                     except IncludeError as e:
-                        e.term = t
+                        e.term = include_t
                         raise
 
-                    except (OSError,  FileNotFoundError, GenerateError, DownloadError) as e:
-                        e = IncludeError("Failed to Include; {}".format(e))
-                        e.term = t
-                        raise e
+                    except Exception as e:  # From opening, downloading, reading or decoding the file
+                        exc = IncludeError("Failed to Include '{}'; {}".format(include_t.value, e))
+                        exc.term = include_t
+                        raise exc from e
 
                     continue  # Already yielded the include/declare term, and includes can't have children
 
-- 
2.43.0


From 5997e087acb841384fdf7fa7c4a161f10cee5fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:51 +0000
Subject: [PATCH 10/34] fix: a nested include returns to the section it is in,
 rather than to the root section

---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index fb13db4..2d51c5e 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -358,7 +358,7 @@ class TermParser(object):
 
                         sub_gen = get_generator(resolved.get_resource().get_target())
 
-                        for t in self.generate_terms(sub_gen, root, file_type=t.record_term_lc):
+                        for t in self.generate_terms(sub_gen, last_section, file_type=t.record_term_lc):
                             yield t
 
                         if last_section:
-- 
2.43.0


From 2155d84cdf7c47f26ebe1996d9c1ae87dc8675f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:36 +0000
Subject: [PATCH 11/34] fix: resolve nested includes from the including file,
 and detect indirect include loops

---
 metatab/parser.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 2d51c5e..42d8f17 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -19,7 +19,7 @@ METATAB_ASSETS_URL = 'http://assets.metatab.org/'
 from .terms import Term, SectionTerm, RootSectionTerm
 
 from .exc import IncludeError, DeclarationError, ParserError, GenerateError
-from os.path import dirname, join, exists
+from os.path import dirname, join, exists, realpath
 from .util import declaration_path, import_name_or_class
 
 from functools import lru_cache
@@ -298,13 +298,14 @@ class TermParser(object):
 
         return parse_app_url(path)
 
-    def generate_terms(self, ref, root, file_type=None):
+    def generate_terms(self, ref, root, file_type=None, include_path=()):
         """An generator that yields term objects, handling includes and argument
         children.
         :param file_type:
         :param doc:
         :param root:
         :param ref:
+        :param include_path: Paths or URLs of the documents that include this one, and of this one
 
         """
 
@@ -313,10 +314,14 @@ class TermParser(object):
 
         if isinstance(ref, Source):
             row_gen = ref
-            ref_path = row_gen.__class__.__name__
+            if include_path:
+                ref_path = include_path[-1]
+            else:
+                ref_path = row_gen.__class__.__name__
         else:
             row_gen = get_generator(ref)
             ref_path = ref.path
+            include_path = (ref_path,)
 
 
         try:
@@ -347,7 +352,9 @@ class TermParser(object):
                     else:
                         resolved = self.find_declare_doc(dirname(ref_path), t.value.strip())
 
-                    if row_gen.ref == resolved:
+                    include_ref = resolved.path if resolved.scheme == 'file' else str(resolved)
+
+                    if row_gen.ref == resolved or realpath(include_ref) in (realpath(e) for e in include_path):
                         raise IncludeError("Include loop for '{}' ".format(resolved))
 
                     yield t
@@ -358,7 +365,8 @@ class TermParser(object):
 
                         sub_gen = get_generator(resolved.get_resource().get_target())
 
-                        for t in self.generate_terms(sub_gen, last_section, file_type=t.record_term_lc):
+                        for t in self.generate_terms(sub_gen, last_section, file_type=t.record_term_lc,
+                                                     include_path=include_path + (include_ref,)):
                             yield t
 
                         if last_section:
-- 
2.43.0


From a9aa4e3a01576d97a18cfefe72621590a1aa4020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:36 +0000
Subject: [PATCH 12/34] fix: find() and schema cleanup give the same order in
 every run

They iterated over sets of strings.
---
 metatab/doc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index d3d529e..7f96db0 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -388,7 +388,7 @@ class MetatabDoc(object):
             try:
                 try:
                     # Term is a string
-                    term = list(self.derived_terms[term.lower()]) + [term]
+                    term = sorted(self.derived_terms[term.lower()]) + [term]
                 except AttributeError:  # Term is hopefully a list
                     terms = []
                     for t in term:
@@ -563,13 +563,13 @@ class MetatabDoc(object):
                         if v and v.strip():
                             used_args.add(k)
 
-            for arg in set(section_args) - used_args:
+            for arg in sorted(set(section_args) - used_args):
                 try:
                     schema_section.remove_arg(arg.title())
                 except ValueError as e:
                     pass
 
-            for arg in used_args - set(section_args):
+            for arg in sorted(used_args - set(section_args)):
                 schema_section.add_arg(arg)
 
             # Remove any empty properties
-- 
2.43.0


From 519e5739b69339e696a90f8c81848b1df297a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:36 +0000
Subject: [PATCH 13/34] fix: iterating the rows of a document does not swallow
 interrupts or generator exit

---
 metatab/doc.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 7f96db0..292d24f 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -815,10 +815,7 @@ class MetatabDoc(object):
 
                 term = term.replace('root.', '').title()
 
-                try:
-                    yield [term] + value
-                except:
-                    yield [term] + [value]
+                yield [term] + (value if isinstance(value, list) else [value])
 
     @property
     def lines(self):
-- 
2.43.0


From dea8e45e686f43cf35bc2250237e29e06020d7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:36 +0000
Subject: [PATCH 14/34] fix: write the names of children of terms whose names
 end in 'root'

---
 metatab/doc.py   | 3 ++-
 metatab/terms.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 292d24f..40e486c 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -8,6 +8,7 @@ import collections
 import csv
 import logging
 import pathlib
+import re
 from collections import OrderedDict
 from collections.abc import MutableSequence
 from itertools import groupby
@@ -813,7 +814,7 @@ class MetatabDoc(object):
             for row in s.rows:
                 term, value = row
 
-                term = term.replace('root.', '').title()
+                term = re.sub(r'^root\.', '', term).title()
 
                 yield [term] + (value if isinstance(value, list) else [value])
 
diff --git a/metatab/terms.py b/metatab/terms.py
index 0448091..0ba9185 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -5,7 +5,7 @@
 Special term subclasses
 """
 
-
+import re
 from os.path import split, basename
 from metatab.util import slugify
 
@@ -965,7 +965,7 @@ class SectionTerm(Term):
             if not isinstance(value, (list, tuple)):
                 value = [value]
 
-            term = term.replace('root.', '').title()
+            term = re.sub(r'^root\.', '', term).title()
             yield (term, escape(value[0]))
 
             children = list(zip(self.property_names, value[1:]))
-- 
2.43.0


From e53b93e0f28e92abae61d2f69aec530f66e3aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:36 +0000
Subject: [PATCH 15/34] fix: deleting a section or terms by name, and getting a
 section, in any case of the name

A deleted section's terms stayed in the document, deleting terms failed, and get_or_new_section()
replaced an existing section with an empty one.
---
 metatab/doc.py   | 7 +++----
 metatab/terms.py | 6 +++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 40e486c..7aab3ca 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -282,7 +282,7 @@ class MetatabDoc(object):
 
     def get_or_new_section(self, name, params=None):
         """Create a new section or return an existing one of the same name"""
-        if name not in self.sections:
+        if name.lower() not in self.sections:
             self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)
 
         return self.sections[name.lower()]
@@ -328,9 +328,8 @@ class MetatabDoc(object):
     def __delitem__(self, item):
 
         try:
-            if item in self.sections:
-                for t in self.sections[item]:
-                    self.terms.remove(t)
+            for t in self.sections[item.lower()]:
+                self.terms.remove(t)
 
             del self.sections[item.lower()]
         except KeyError:
diff --git a/metatab/terms.py b/metatab/terms.py
index 0ba9185..7a8e8e6 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -895,9 +895,9 @@ class SectionTerm(Term):
 
     def __delitem__(self, item):
         """Delete all terms that match the given name"""
-        for t in self.terms:
-            if t.term.lower() == item.lower():
-                self.delete_term(item)
+        for t in list(self.terms):
+            if t.term_is(item):
+                self.remove_term(t)
 
         return
 
-- 
2.43.0


From 7f40fa931dcbb708b42a88476e9d740ada8477bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:25 +0000
Subject: [PATCH 16/34] fix: creating a metatab file never replaces one that
 appears while it is being created

---
 metatab/cli.py  |  5 ++++-
 metatab/doc.py  |  8 ++++----
 metatab/util.py | 32 ++++++++++++++++++++++++++------
 3 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/metatab/cli.py b/metatab/cli.py
index 6649abd..b1944a1 100644
--- a/metatab/cli.py
+++ b/metatab/cli.py
@@ -210,7 +210,10 @@ def new_metatab_file(mt_file, template):
     if not exists(mt_file):
         doc = make_metatab_file(template)
 
-        doc.write_csv(mt_file)
+        try:
+            doc.write_csv(mt_file, overwrite=False)
+        except FileExistsError:  # Created since we checked
+            return False
 
         return True
 
diff --git a/metatab/doc.py b/metatab/doc.py
index 7aab3ca..b786147 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -894,15 +894,15 @@ class MetatabDoc(object):
         else:
             return pathlib.Path(str(path))
 
-    def _write(self, content, path: pathlib.Path, ext=None):
+    def _write(self, content, path: pathlib.Path, ext=None, overwrite=True):
 
         debug_logger.debug("writing doc {}".format(str(path)))
 
-        atomic_write(path, content.encode('utf8'))
+        atomic_write(path, content.encode('utf8'), overwrite=overwrite)
 
         return path
 
-    def write_csv(self, path=None):
+    def write_csv(self, path=None, overwrite=True):
 
         path = self._write_path(path)
 
@@ -911,7 +911,7 @@ class MetatabDoc(object):
 
         self.cleanse()
 
-        return self._write(self.as_csv(), path)
+        return self._write(self.as_csv(), path, overwrite=overwrite)
 
     def write_lines(self, path=None):
 
diff --git a/metatab/util.py b/metatab/util.py
index b9ad56d..bcc66d9 100644
--- a/metatab/util.py
+++ b/metatab/util.py
@@ -37,17 +37,21 @@ def declaration_path(name):
     return path
 
 
-def atomic_write(path, content):
+def atomic_write(path, content, overwrite=True):
     """Replace the contents of a file. Whatever fails, the file has either its old contents or all of the new
     ones, and when this returns the new ones are on disk.
 
     :param path: Path of the file to write
     :param content: Bytes to write
+    :param overwrite: If False, raise FileExistsError rather than replace a file, even one that was just created.
     """
     from uuid import uuid4
 
     path = str(path)
 
+    if exists(path) and not overwrite:
+        raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
+
     if exists(path) and not isfile(path):
         # A device or a pipe can be written, but not replaced.
         with open(path, 'wb') as f:
@@ -64,12 +68,28 @@ def atomic_write(path, content):
             f.flush()
             os.fsync(f.fileno())
 
-        if exists(path):
-            with open(path, 'rb+'):  # Don't replace a file that could not be written
-                pass
-            shutil.copymode(path, temp_path)
+        if not overwrite:
+            try:
+                os.link(temp_path, path)
+            except OSError as e:
+                if e.errno not in (errno.EPERM, errno.ENOTSUP, errno.ENOSYS):
+                    raise
+
+                open(path, 'xb').close()  # No links on this file system, so reserve the name
+                try:
+                    os.replace(temp_path, path)
+                except BaseException:
+                    os.unlink(path)
+                    raise
+            else:
+                os.unlink(temp_path)
+        else:
+            if exists(path):
+                with open(path, 'rb+'):  # Don't replace a file that could not be written
+                    pass
+                shutil.copymode(path, temp_path)
 
-        os.replace(temp_path, path)
+            os.replace(temp_path, path)
     except BaseException:
         try:
             os.unlink(temp_path)
-- 
2.43.0


From 30ecaecae8bb0c3be8e1bca0178edf29a736db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:09 +0000
Subject: [PATCH 17/34] fix: a column named 'Section' does not take the place
 of the section that a term is in

---
 metatab/terms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 7a8e8e6..5cd48f5 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -361,6 +361,10 @@ class Term(object):
             # Not initialized yet; set attributes normally.
             return object.__setattr__(self, item, value)
 
+        elif getattr(getattr(type(self), item, None), 'fset', None):
+            # The object's own property, such as its section, though a column may have the same name
+            object.__setattr__(self, item, value)
+
         elif item in self.__dict__ and not (item.lower() == self.term_value_name.lower() or item.lower() == 'value'):
             # Value already exists as an attribute in the object, and the name is not
             # the value name
-- 
2.43.0


From 403a99eab2e078968a5f9fa8d31eab820ee4e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:12 +0000
Subject: [PATCH 18/34] fix: keep a property that has the same name as the
 value of the term when writing it

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 5cd48f5..b701787 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -627,7 +627,7 @@ class Term(object):
         # in a property array, so they can be written to the parent's arg-children columns
         # if the section has any.
 
-        properties = {tvm: self.value}
+        properties = {tvm.lower(): self.value}
         repeated = []  # A property array has only one place for each name
 
         for c in self.children:
-- 
2.43.0


From 4e9576c7961cc7c568c4255fdae76e0adda9bc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:26 +0000
Subject: [PATCH 19/34] fix: a target that cannot be examined is not taken for
 one that has to be written in place

---
 metatab/util.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/metatab/util.py b/metatab/util.py
index bcc66d9..d669c01 100644
--- a/metatab/util.py
+++ b/metatab/util.py
@@ -7,8 +7,9 @@ import errno
 import logging
 import os
 import shutil
+import stat
 import sys
-from genericpath import exists, isfile
+from genericpath import exists
 from os import makedirs
 from os.path import join, basename, dirname, isdir, abspath
 
@@ -49,10 +50,15 @@ def atomic_write(path, content, overwrite=True):
 
     path = str(path)
 
-    if exists(path) and not overwrite:
+    try:
+        mode = os.stat(path).st_mode
+    except FileNotFoundError:
+        mode = None
+
+    if mode is not None and not overwrite:
         raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
 
-    if exists(path) and not isfile(path):
+    if mode is not None and not stat.S_ISREG(mode):
         # A device or a pipe can be written, but not replaced.
         with open(path, 'wb') as f:
             f.write(content)
@@ -84,10 +90,10 @@ def atomic_write(path, content, overwrite=True):
             else:
                 os.unlink(temp_path)
         else:
-            if exists(path):
+            if mode is not None:
                 with open(path, 'rb+'):  # Don't replace a file that could not be written
                     pass
-                shutil.copymode(path, temp_path)
+                os.chmod(temp_path, stat.S_IMODE(mode))
 
             os.replace(temp_path, path)
     except BaseException:
-- 
2.43.0


From 37118d6ad1dab2a219011292f7fbeb265be3011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:09 +0000
Subject: [PATCH 20/34] fix: includes and declarations relative to a directory
 whose name has spaces

---
 metatab/parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 42d8f17..dcb63f8 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -298,6 +298,11 @@ class TermParser(object):
 
         return parse_app_url(path)
 
+    @staticmethod
+    def ref_path(ref):
+        """Return the path of a Url, as a file system path if it is for a file, rather than with quoted characters"""
+        return str(ref.fspath) if ref.scheme == 'file' else ref.path
+
     def generate_terms(self, ref, root, file_type=None, include_path=()):
         """An generator that yields term objects, handling includes and argument
         children.
@@ -320,7 +325,7 @@ class TermParser(object):
                 ref_path = row_gen.__class__.__name__
         else:
             row_gen = get_generator(ref)
-            ref_path = ref.path
+            ref_path = self.ref_path(ref)
             include_path = (ref_path,)
 
 
@@ -352,7 +357,7 @@ class TermParser(object):
                     else:
                         resolved = self.find_declare_doc(dirname(ref_path), t.value.strip())
 
-                    include_ref = resolved.path if resolved.scheme == 'file' else str(resolved)
+                    include_ref = self.ref_path(resolved) if resolved.scheme == 'file' else str(resolved)
 
                     if row_gen.ref == resolved or realpath(include_ref) in (realpath(e) for e in include_path):
                         raise IncludeError("Include loop for '{}' ".format(resolved))
-- 
2.43.0


From a79c22f4902526aec5aabbf4d8604df102d6e689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:27 +0000
Subject: [PATCH 21/34] fix: getting a term without giving a value does not
 replace its value with False

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index b701787..d42d5be 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -807,7 +807,7 @@ class SectionTerm(Term):
             t = self.new_term(term, value, **kwargs)
 
         else:
-            if value is not None:
+            if value is not None and value is not False:  # False is for no value being given
                 t.value = value
 
             for k, v in kwargs.items():
-- 
2.43.0


From 6ef0b01bafabb2768d20d7e4e1479a73c8d99a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:31 +0000
Subject: [PATCH 22/34] fix: setting a term to a value of two characters

---
 metatab/terms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index d42d5be..82bd316 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -836,10 +836,10 @@ class SectionTerm(Term):
             self.add_term(t)
 
         for k,v in kw_terms.items():
-            try:
+            if isinstance(v, (tuple, list)) and len(v) == 2:
                 value, props = v
-            except (ValueError, TypeError) as e:
-                value, props = v,{}
+            else:
+                value, props = v, {}
 
             self.new_term(k,value,**props)
 
-- 
2.43.0


From 652ab9394ea66703563dbb67928b8e8114e02b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:45 +0000
Subject: [PATCH 23/34] fix: a failed creation on a file system without links
 leaves no empty file

---
 metatab/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metatab/util.py b/metatab/util.py
index d669c01..d0d51ed 100644
--- a/metatab/util.py
+++ b/metatab/util.py
@@ -81,8 +81,9 @@ def atomic_write(path, content, overwrite=True):
                 if e.errno not in (errno.EPERM, errno.ENOTSUP, errno.ENOSYS):
                     raise
 
-                open(path, 'xb').close()  # No links on this file system, so reserve the name
+                f = open(path, 'xb')  # No links on this file system, so reserve the name
                 try:
+                    f.close()
                     os.replace(temp_path, path)
                 except BaseException:
                     os.unlink(path)
-- 
2.43.0


From 644305dffc4117737704c53d7ec740219fb97eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:47 +0000
Subject: [PATCH 24/34] fix: an interrupt in add_term must not leave the term
 in the document but not in its section

---
 metatab/doc.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index b786147..56455a9 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -194,15 +194,24 @@ class MetatabDoc(object):
 
         assert t.section or t.join_lc == 'root.root', t
 
-        # Section terms don't show up in the document as terms
-        if isinstance(t, SectionTerm):
-            self.add_section(t)
-        else:
-            self.terms.append(t)
-
-        if add_section and t.section and t.parent_term_lc == 'root':
-            t.section = self.add_section(t.section)
-            t.section.add_term(t)
+        try:
+            # Section terms don't show up in the document as terms
+            if isinstance(t, SectionTerm):
+                self.add_section(t)
+            else:
+                self.terms.append(t)
+
+            if add_section and t.section and t.parent_term_lc == 'root':
+                t.section = self.add_section(t.section)
+                t.section.add_term(t)
+
+        except BaseException:
+            # When interrupted, don't leave the term in the document but not in its section; it would
+            # be found, but never be written.
+            self.terms[:] = [e for e in self.terms if e is not t]
+            if t.section:
+                t.section.terms[:] = [e for e in t.section.terms if e is not t]
+            raise
 
         if not t.child_property_type or t.child_property_type == 'any':
             t.child_property_type = self.decl_terms \
-- 
2.43.0


From f8f35798c27cc94f90aa103964ee6e3ab956204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:25 +0000
Subject: [PATCH 25/34] fix: a Lines file is not broken into lines at
 characters that may be in a value

---
 metatab/rowgen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metatab/rowgen.py b/metatab/rowgen.py
index 4371a96..612c3e7 100644
--- a/metatab/rowgen.py
+++ b/metatab/rowgen.py
@@ -3,6 +3,7 @@
 
 """ """
 from errno import EINVAL, EISDIR, ENAMETOOLONG, ENOENT, ENOTDIR
+from io import StringIO
 from pathlib import PurePath
 
 from rowgenerators import Source, Url
@@ -128,7 +129,8 @@ class TextRowGenerator(MetatabRowGenerator):
         text = self._read(ref)
 
         self._text = text
-        self._text_lines = text.splitlines()
+        # Not splitlines(), which also breaks lines on characters that may be in a value, such as u2028
+        self._text_lines = [line.rstrip('\n') for line in StringIO(text, newline=None)]
         self._path = path or '<none>'
 
     @staticmethod
-- 
2.43.0


From 48445e7bcf17ae9d97cbdbb8c4ab4db844fd580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:53 +0000
Subject: [PATCH 26/34] fix: a save does not take the name, identifier and
 dataset terms of other sections for those of the document

---
 metatab/doc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 56455a9..81d876e 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -669,7 +669,7 @@ class MetatabDoc(object):
 
         self.ensure_identifier()
 
-        name_term = self.find_first('Root.Name')
+        name_term = self.find_first('Root.Name', section='Root')
 
         if not name_term:
             if create_term:
@@ -680,9 +680,9 @@ class MetatabDoc(object):
 
         orig_name = name_term.value
 
-        identifier = self.get_value('Root.Identifier')
+        identifier = self.get_value('Root.Identifier', section='Root')
 
-        datasetname = self.get_value('Root.Dataset')
+        datasetname = self.get_value('Root.Dataset', section='Root')
 
         if datasetname:
 
-- 
2.43.0


From 1ad975bfe7df0d5598bc980351bb124b3d7f6bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:53 +0000
Subject: [PATCH 27/34] fix: the metatab URL of a zip package loads its
 metadata file, not the first file in the archive

---
 metatab/appurl.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index 479926a..2460ce2 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -118,7 +118,13 @@ class MetatabUrl(InnerFile, Url):
         return MetatabUrl(str(u), downloader=self._downloader)
 
     def get_target(self):
-        return MetatabUrl(str(self.inner.get_target()), downloader=self._downloader)
+        inner = self.inner
+
+        if self.resource_format == 'zip' and not inner.target_file:
+            # Or the first file in the archive would be the target
+            inner = inner.join_target(self.target_file)
+
+        return MetatabUrl(str(inner.get_target()), downloader=self._downloader)
 
     def join_target(self, tf):
 
-- 
2.43.0


From de7745135433669e80c164f20fea88e8e1c2789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:53 +0000
Subject: [PATCH 28/34] fix: searching in a list of sections does not fail with
 a NameError

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 81d876e..b502348 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -387,7 +387,7 @@ class MetatabDoc(object):
                 return False
 
             if isinstance(section, (list, tuple)):
-                return any(in_section(t, e) for e in section)
+                return any(in_section(term, e) for e in section)
             else:
                 return section.lower() == term.section.name.lower()
 
-- 
2.43.0


From 2477bcfb3dab36e3424922f65ae77c896fdf6bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:53 +0000
Subject: [PATCH 29/34] fix: moving a term to another section takes it out of
 the section it was in

---
 metatab/terms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 82bd316..62fffe0 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -759,7 +759,14 @@ class SectionTerm(Term):
         """Add a term to this section and set it's ownership. Should only be used on root level terms"""
         if t not in self.terms:
             if t.parent_term_lc == 'root':
+                old = t.section
+
                 self.terms.append(t)
+                t.section = self
+
+                if old and old is not self and old.doc is self.doc:
+                    # A term is in only one section of a document
+                    old.terms[:] = [e for e in old.terms if e is not t]
 
                 self.doc.add_term(t, add_section=False)
 
-- 
2.43.0


From 384639cb82fc887b044944f3c76a7c3301160a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:53 +0000
Subject: [PATCH 30/34] fix: what a declaration includes is declared, and its
 own includes do not become terms of the document

---
 metatab/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index dcb63f8..bd7b7b9 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -370,7 +370,10 @@ class TermParser(object):
 
                         sub_gen = get_generator(resolved.get_resource().get_target())
 
-                        for t in self.generate_terms(sub_gen, last_section, file_type=t.record_term_lc,
+                        # What a declaration includes is a declaration, too
+                        sub_type = 'declare' if file_type == 'declare' else t.record_term_lc
+
+                        for t in self.generate_terms(sub_gen, last_section, file_type=sub_type,
                                                      include_path=include_path + (include_ref,)):
                             yield t
 
@@ -524,7 +527,10 @@ class TermParser(object):
                             raise ParserError("No parent term for '{}' in term '{}', row = {}"
                                               .format(t.parent_term, t.term, t.row))
 
-                    if t.parent_term_lc == 'root':
+                    if t.file_type == 'declare' and last_section.file_type != 'declare':
+                        pass  # Terms of a declaration are not in the sections of the document
+
+                    elif t.parent_term_lc == 'root':
                         last_section.add_term(t)
 
                 if t.file_type == 'declare':
-- 
2.43.0


From e7ab8a529a75c3e936a5885333d1b62cc04418eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:28 +0000
Subject: [PATCH 31/34] fix: a property with the same name as its term is not
 lost when it is read

---
 metatab/parser.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index bd7b7b9..9097c1c 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -517,16 +517,19 @@ class TermParser(object):
                         last_term_map[last_parent_term].add_child(t)
 
                     else:
-                        last_parent_term = t.record_term
-                        last_term_map[ELIDED_TERM] = t
-                        last_term_map[t.record_term] = t
-
+                        # Find the parent first, because it can have the same name as the term
                         try:
-                            last_term_map[t.parent_term].add_child(t)
+                            parent = last_term_map[t.parent_term]
                         except KeyError:
                             raise ParserError("No parent term for '{}' in term '{}', row = {}"
                                               .format(t.parent_term, t.term, t.row))
 
+                        last_parent_term = t.record_term
+                        last_term_map[ELIDED_TERM] = t
+                        last_term_map[t.record_term] = t
+
+                        parent.add_child(t)
+
                     if t.file_type == 'declare' and last_section.file_type != 'declare':
                         pass  # Terms of a declaration are not in the sections of the document
 
-- 
2.43.0


From 0c10b47446a1faa5e023fe3383133f50898acdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:13 +0000
Subject: [PATCH 32/34] fix: a document is saved to the file that a pathlib
 path names, not to the one of the URL that it looks like

---
 metatab/doc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metatab/doc.py b/metatab/doc.py
index b502348..958fa3f 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -878,6 +878,9 @@ class MetatabDoc(object):
 
     def _write_path(self, path):
 
+        if isinstance(path, pathlib.Path):
+            return path  # Not a URL, so characters such as '%' and '#' have no special meaning
+
         if path:
             u = parse_app_url(str(path))
         else:
-- 
2.43.0


From 2f99bd0221018206744c4f356adce08c0795bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:15 +0000
Subject: [PATCH 33/34] fix: an included file whose name starts with http is
 not taken for a web address

---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 9097c1c..047d28f 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -287,7 +287,7 @@ class TermParser(object):
 
         include_ref = name.strip('/')
 
-        if include_ref.startswith('http'):
+        if include_ref.startswith(('http:', 'https:')):
             path = include_ref
         else:
             if not d:
-- 
2.43.0


From a5c164774cb96d3d4637da46b25101a8b440aa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:15 +0000
Subject: [PATCH 34/34] fix: creating a file makes the one that was named, also
 if the name has characters that are special in URLs

---
 metatab/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metatab/cli.py b/metatab/cli.py
index b1944a1..89a4abc 100644
--- a/metatab/cli.py
+++ b/metatab/cli.py
@@ -12,6 +12,7 @@ from genericpath import exists
 from metatab import  DEFAULT_METATAB_FILE, MetatabDoc, parse_app_url
 from rowgenerators.util import get_cache, clean_cache
 from os.path import dirname
+from pathlib import Path
 from rowgenerators.util import fs_join as join
 
 import logging
@@ -211,7 +212,8 @@ def new_metatab_file(mt_file, template):
         doc = make_metatab_file(template)
 
         try:
-            doc.write_csv(mt_file, overwrite=False)
+            # A name, rather than a URL, can have characters such as '%' and '#'
+            doc.write_csv(mt_file if '://' in mt_file else Path(mt_file), overwrite=False)
         except FileExistsError:  # Created since we checked
             return False
 
-- 
2.43.0

