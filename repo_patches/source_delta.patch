From 92e6e96da83508a919d92f06091e2ca6a5f5dcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:21 +0000
Subject: [PATCH 01/51] fix: SectionTerm.as_dict no longer swaps the section's
 children while converting

If the conversion raised, the section was left with its terms as children.
---
 metatab/terms.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 057042f..c74db0b 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -543,10 +543,11 @@ class Term(object):
         return self._convert_to_dict(self, replace_value_names)
 
     @classmethod
-    def _convert_to_dict(cls, term, replace_value_names=True):
+    def _convert_to_dict(cls, term, replace_value_names=True, children=None):
         """Converts a record heirarchy to nested dicts.
 
         :param term: Root term at which to start conversion
+        :param children: Terms to use instead of the children of the root term
 
         """
 
@@ -555,11 +556,14 @@ class Term(object):
         if not term:
             return None
 
-        if term.children:
+        if children is None:
+            children = term.children
+
+        if children:
 
             d = OrderedDict()
 
-            for c in term.children:
+            for c in children:
 
                 if c.child_property_type == 'scalar':
                     d[c.record_term_lc] = cls._convert_to_dict(c, replace_value_names)
@@ -966,14 +970,7 @@ class SectionTerm(Term):
 
     def as_dict(self, replace_value_names=True):
         """Return the whole section as a dict"""
-        old_children = self.children
-        self.children = self.terms
-
-        d = super(SectionTerm, self).as_dict(replace_value_names)
-
-        self.children = old_children
-
-        return d
+        return self._convert_to_dict(self, replace_value_names, children=self.terms)
 
 
 class RootSectionTerm(SectionTerm):
-- 
2.43.0


From 02838fdb9e6d9818db5c0343e69346b3cb724409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:21 +0000
Subject: [PATCH 02/51] fix: as_version does not change the version of the
 document

It also raises MetatabError, rather than failing with AttributeError or TypeError, when there is no version to change.
---
 metatab/doc.py | 48 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 1db299e..67ec02a 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -128,7 +128,7 @@ class MetatabDoc(object):
 
         """
 
-        return self._generate_identity_name(ver)
+        return self._generate_identity_name(ver, version_term=self._version_copy())
 
     @property
     def doc_dir(self):
@@ -595,10 +595,26 @@ class MetatabDoc(object):
             version.find_first('Version.Patch')
         ])
 
-    def update_version(self):
+    def _version_copy(self):
+        """Return a detached copy of the Root.Version term, which can be changed without changing the document"""
 
         version = self['Root'].find_first('Root.Version')
 
+        if not version:
+            return None
+
+        copy = Term('Root.Version', version.value, doc=self, section=version.section)
+
+        for c in version.children:
+            copy.new_child(c.record_term, c.value)
+
+        return copy
+
+    def update_version(self, version=None):
+
+        if not version:
+            version = self['Root'].find_first('Root.Version')
+
         if not version:
             return None
 
@@ -696,11 +712,16 @@ class MetatabDoc(object):
 
         return updates
 
-    def _generate_identity_name(self, mod_version=False):
+    def _generate_identity_name(self, mod_version=False, version_term=None):
 
         """mod_version == False -> dpn't change the version
            mod_version == None -> remove the version
-           mod_version == Something else -> change the versino to somethig else"""
+           mod_version == Something else -> change the versino to somethig else
+
+           version_term is the version term to use and change, if it is not the one in the document"""
+
+        if not version_term:
+            version_term = self['Root'].find_first('Root.Version')
 
         datasetname = self.find_first_value('Root.Dataset', section='Root')
         origin = self.find_first_value('Root.Origin', section='Root')
@@ -709,21 +730,24 @@ class MetatabDoc(object):
         grain = self.find_first_value('Root.Grain', section='Root')
         variant = self.find_first_value('Root.Variant', section='Root')
 
-        self.update_version()
+        self.update_version(version_term)
 
-        if self._has_semver():
+        if version_term and self._has_semver():
             # Modifyable part is the patch
-            mv = self['Root'].get_value('Version.Patch')
+            mv = version_term.get_value('Version.Patch')
 
             def set_ver(mv):
-                self['Root'].find_first('Version.Patch').value = mv
+                version_term['Version.Patch'].value = mv
 
         else:
             # Modifyable part is the whole version
-            mv = self['Root'].get_value('Version')
+            mv = version_term.value if version_term else None
 
             def set_ver(mv):
-                self['Root'].find_first('Version').value = mv
+                if not version_term:
+                    raise MetatabError("Can't set the version; there is no Root.Version term")
+
+                version_term.value = mv
 
 
         if mod_version is False:
@@ -739,7 +763,7 @@ class MetatabDoc(object):
 
             try:
                 int(mv)
-            except ValueError:
+            except (ValueError, TypeError):
                 raise MetatabError(
                     "When specifying version math, version value in Root.Version or Version.Patch  term must be an integer")
 
@@ -764,7 +788,7 @@ class MetatabDoc(object):
             version = None
         else:
             set_ver(mv)
-            version = self.update_version()
+            version = self.update_version(version_term)
 
         parts = [slugify(str(e).replace('-', '_')) for e in (
             origin, datasetname, time, space, grain, variant, version)
-- 
2.43.0


From 4ce81e7b7cf157b5eddae1d2381cfe5aee27ca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:26 +0000
Subject: [PATCH 03/51] fix: section names are case-insensitive in
 get_or_new_section and section deletion

get_or_new_section('Name') replaced an existing section, losing its terms, and del doc['Name'] left
the terms of the section in the document.
---
 metatab/doc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 67ec02a..1b43932 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -271,7 +271,7 @@ class MetatabDoc(object):
 
     def get_or_new_section(self, name, params=None):
         """Create a new section or return an existing one of the same name"""
-        if name not in self.sections:
+        if name.lower() not in self.sections:
             self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)
 
         return self.sections[name.lower()]
@@ -317,8 +317,8 @@ class MetatabDoc(object):
     def __delitem__(self, item):
 
         try:
-            if item in self.sections:
-                for t in self.sections[item]:
+            if item.lower() in self.sections:
+                for t in self.sections[item.lower()]:
                     self.terms.remove(t)
 
             del self.sections[item.lower()]
-- 
2.43.0


From d6223f3c79e2749e2f2505a88fc057f0044369df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:26 +0000
Subject: [PATCH 04/51] fix: deleting a term from a section by name

SectionTerm.__delitem__ called delete_term(), which does not exist.
---
 metatab/terms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index c74db0b..b3b50fd 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -889,9 +889,9 @@ class SectionTerm(Term):
 
     def __delitem__(self, item):
         """Delete all terms that match the given name"""
-        for t in self.terms:
-            if t.term.lower() == item.lower():
-                self.delete_term(item)
+        for t in list(self.terms):
+            if t.term_is(item):
+                self.remove_term(t)
 
         return
 
-- 
2.43.0


From e7ffdf3e8096d6621e6600e950d9ed7a9f10919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:26 +0000
Subject: [PATCH 05/51] fix: order of derived terms, schema columns and errors
 does not depend on hash order

find() on a super term, find_first(), columns added by clean_unused_schema_terms() and errors_as_dict()
used the iteration order of sets.
---
 metatab/doc.py    | 4 ++--
 metatab/parser.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 1b43932..3bdd6e4 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -378,7 +378,7 @@ class MetatabDoc(object):
             try:
                 try:
                     # Term is a string
-                    term = list(self.derived_terms[term.lower()]) + [term]
+                    term = sorted(self.derived_terms[term.lower()]) + [term]
                 except AttributeError:  # Term is hopefully a list
                     terms = []
                     for t in term:
@@ -559,7 +559,7 @@ class MetatabDoc(object):
                 except ValueError as e:
                     pass
 
-            for arg in used_args - set(section_args):
+            for arg in sorted(used_args - set(section_args)):
                 schema_section.add_arg(arg)
 
             # Remove any empty properties
diff --git a/metatab/parser.py b/metatab/parser.py
index efb820d..a987200 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -220,7 +220,7 @@ class TermParser(object):
         """Return parse errors as a dict"""
         errors = []
 
-        for e in self.errors:
+        for e in sorted(self.errors, key=str):
 
             errors.append({
                 'file': e.term.file_name,
-- 
2.43.0


From 219d4c4186118233f2f6231e7510db03f06b8761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:26 +0000
Subject: [PATCH 06/51] fix: clean up the document before rendering it, and
 encode it before opening the file

The file was written without the identifier and name that cleanse() added, and an existing file was
truncated when the text could not be encoded.
---
 metatab/doc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 3bdd6e4..1cd57ad 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -913,12 +913,12 @@ class MetatabDoc(object):
 
     def _write(self, content, path: pathlib.Path, ext=None):
 
-        self.cleanse()
-
         debug_logger.debug("writing doc {}".format(str(path)))
 
+        content = content.encode('utf8')
+
         with path.open('wb') as f:
-            f.write(content.encode('utf8'))
+            f.write(content)
 
         return path
 
@@ -929,6 +929,8 @@ class MetatabDoc(object):
         if path.suffix != '.csv':
             raise MetatabError("Writing CSV file, but extension is wrong: {} ".format(str(path)))
 
+        self.cleanse()
+
         return self._write(self.as_csv(), path)
 
     def write_lines(self, path=None):
@@ -938,6 +940,8 @@ class MetatabDoc(object):
         if path.suffix != '.txt':
             raise MetatabError("Writing line (txt) file, but extension is wrong: {} ".format(str(path)))
 
+        self.cleanse()
+
         return self._write(self.as_lines(), path)
 
     def write(self, path=None):
-- 
2.43.0


From 4f438e8220557bd44c908953afa4337c85fb6c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:26 +0000
Subject: [PATCH 07/51] fix: read and write document text as UTF-8 whatever the
 locale

The lines and YAML readers and the in-place writer of the command line used the default encoding.
---
 metatab/cli.py    | 6 ++++--
 metatab/rowgen.py | 8 ++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/metatab/cli.py b/metatab/cli.py
index 1463823..a72bb9d 100644
--- a/metatab/cli.py
+++ b/metatab/cli.py
@@ -99,8 +99,10 @@ def metatab():
         ext = 'txt' if args.out_type == 'line' else args.out_type
 
         if args.write_in_place:
-            with metadata_url.fspath.with_suffix('.'+ext).open('w') as f:
-                f.write(t)
+            content = t.encode('utf8')
+
+            with metadata_url.fspath.with_suffix('.'+ext).open('wb') as f:
+                f.write(content)
         else:
             print(t)
 
diff --git a/metatab/rowgen.py b/metatab/rowgen.py
index 0a40a3c..c15a985 100644
--- a/metatab/rowgen.py
+++ b/metatab/rowgen.py
@@ -46,7 +46,7 @@ class YamlMetatabSource(Source):
         import yaml
         from metatab import MetatabDoc
 
-        with open(self.url.fspath) as f:
+        with open(self.url.fspath, encoding='utf8') as f:
             d = yaml.load(f)
 
         decl = d.get('declare', 'metatab-latest')
@@ -126,7 +126,7 @@ class TextRowGenerator(MetatabRowGenerator):
 
             try:
                 # Pathlib Path
-                with ref.open() as r:
+                with ref.open(encoding='utf8') as r:
                     text = r.read()
                 break
             except:
@@ -141,7 +141,7 @@ class TextRowGenerator(MetatabRowGenerator):
 
             try:
                 # Url
-                with ref.inner.fspath.open() as f:
+                with ref.inner.fspath.open(encoding='utf8') as f:
                     text = f.read()
                 break
             except:
@@ -150,7 +150,7 @@ class TextRowGenerator(MetatabRowGenerator):
 
             try:
                 # File name
-                with open(ref) as r:
+                with open(ref, encoding='utf8') as r:
                     text = r.read()
                 break
             except:
-- 
2.43.0


From a250b013bb851b8b41cf5487f259247134bdc0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:26 +0000
Subject: [PATCH 08/51] fix: load YAML documents with the safe loader

yaml.load() without a loader is an error since PyYAML 6, and could build arbitrary objects before.
---
 metatab/rowgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/rowgen.py b/metatab/rowgen.py
index c15a985..bf6158f 100644
--- a/metatab/rowgen.py
+++ b/metatab/rowgen.py
@@ -47,7 +47,7 @@ class YamlMetatabSource(Source):
         from metatab import MetatabDoc
 
         with open(self.url.fspath, encoding='utf8') as f:
-            d = yaml.load(f)
+            d = yaml.safe_load(f)
 
         decl = d.get('declare', 'metatab-latest')
 
-- 
2.43.0


From 915160c9e8ce4b4db9b74500b26eb085186c382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:26 +0000
Subject: [PATCH 09/51] fix: remove debugging output to stdout from the YAML
 source and URL join

---
 metatab/appurl.py | 2 --
 metatab/rowgen.py | 2 --
 2 files changed, 4 deletions(-)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index 479926a..28d11be 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -122,8 +122,6 @@ class MetatabUrl(InnerFile, Url):
 
     def join_target(self, tf):
 
-        print("Type=", type(self))
-
         if self.target_file == DEFAULT_METATAB_FILE:
             return self.inner.join_dir(tf)
         else:
diff --git a/metatab/rowgen.py b/metatab/rowgen.py
index bf6158f..db68e94 100644
--- a/metatab/rowgen.py
+++ b/metatab/rowgen.py
@@ -70,8 +70,6 @@ class YamlMetatabSource(Source):
         last_term = { }
         for term_name, value, parent in self.yield_dict(doc, d):
 
-            print(term_name, value, parent)
-
             section = self.sections.get(self.section_map.get(term_name) or 'root')
 
             if parent is None:
-- 
2.43.0


From eb57cdff0c387c87317664920d1827d7a99a750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:26 +0000
Subject: [PATCH 10/51] fix: do not swallow interrupts in bare except clauses

---
 metatab/doc.py    | 2 +-
 metatab/rowgen.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 1cd57ad..a891f14 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -831,7 +831,7 @@ class MetatabDoc(object):
 
                 try:
                     yield [term] + value
-                except:
+                except TypeError:
                     yield [term] + [value]
 
     @property
diff --git a/metatab/rowgen.py b/metatab/rowgen.py
index db68e94..6f8df1b 100644
--- a/metatab/rowgen.py
+++ b/metatab/rowgen.py
@@ -127,14 +127,14 @@ class TextRowGenerator(MetatabRowGenerator):
                 with ref.open(encoding='utf8') as r:
                     text = r.read()
                 break
-            except:
+            except Exception:
                 pass
 
             try:
                 # Filehandle
                 text = ref.read()
                 break
-            except:
+            except Exception:
                 pass
 
             try:
@@ -142,7 +142,7 @@ class TextRowGenerator(MetatabRowGenerator):
                 with ref.inner.fspath.open(encoding='utf8') as f:
                     text = f.read()
                 break
-            except:
+            except Exception:
 
                 pass
 
@@ -151,7 +151,7 @@ class TextRowGenerator(MetatabRowGenerator):
                 with open(ref, encoding='utf8') as r:
                     text = r.read()
                 break
-            except:
+            except Exception:
                 pass
 
             try:
-- 
2.43.0


From d830079fe9ee5524747317424ad277e82d6554a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:26 +0000
Subject: [PATCH 11/51] fix: detect include and declaration loops of any length

Urls do not compare equal, so not even a document that declares itself was detected, and parsing
failed with a RecursionError.
---
 metatab/parser.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index a987200..d775910 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -298,13 +298,14 @@ class TermParser(object):
 
         return parse_app_url(path)
 
-    def generate_terms(self, ref, root, file_type=None):
+    def generate_terms(self, ref, root, file_type=None, including=()):
         """An generator that yields term objects, handling includes and argument
         children.
         :param file_type:
         :param doc:
         :param root:
         :param ref:
+        :param including: References of the documents that are including this one
 
         """
 
@@ -318,6 +319,7 @@ class TermParser(object):
             row_gen = get_generator(ref)
             ref_path = ref.path
 
+        including = including + (str(row_gen.ref),)
 
         try:
             for line_n, row in enumerate(row_gen, 1):
@@ -347,16 +349,17 @@ class TermParser(object):
                     else:
                         resolved = self.find_declare_doc(dirname(ref_path), t.value.strip())
 
-                    if row_gen.ref == resolved:
-                        raise IncludeError("Include loop for '{}' ".format(resolved))
-
                     yield t
 
                     try:
 
                         sub_gen = get_generator(resolved.get_resource().get_target())
 
-                        for t in self.generate_terms(sub_gen, root, file_type=t.record_term_lc):
+                        if str(sub_gen.ref) in including:
+                            raise IncludeError("Include loop for '{}' ".format(resolved))
+
+                        for t in self.generate_terms(sub_gen, root, file_type=t.record_term_lc,
+                                                     including=including):
                             yield t
 
                         if last_section:
-- 
2.43.0


From 5b9b88d6a1de84da6140aef71a1db0a4e2eb3f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:24 +0000
Subject: [PATCH 12/51] fix: write every one of several properties of the same
 name

Only the last of the terminal children with the same name was written to CSV and lines output.
---
 metatab/terms.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index b3b50fd..42fa3f8 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -623,17 +623,24 @@ class Term(object):
         # in a property array, so they can be written to the parent's arg-children columns
         # if the section has any.
 
-        properties = {tvm: self.value}
+        properties = {tvm.lower(): self.value}
+        repeated = []  # Terminal children with a name that is already in the properties
 
         for c in self.children:
             if c.is_terminal:
-                if c.record_term_lc:
+                if c.record_term_lc in properties:
+                    repeated.append(c)
+                elif c.record_term_lc:
                     # This is rare, but can happen if a property child is not given
                     # a property name by the section -- the "Section" term has a blank column.
                     properties[c.record_term_lc] = c.value
 
         yield (self.qualified_term, properties)
 
+        # Only one child of each name fits in the row of the term, so the others get rows of their own
+        for c in repeated:
+            yield (c.qualified_term, c.value)
+
         # The non-terminal children have to get yielded normally -- they can't be arg-children
         for c in self.children:
             if not c.is_terminal:
-- 
2.43.0


From 638d4f37bc10522dadacd8c0301833e49277dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:24 +0000
Subject: [PATCH 13/51] fix: only remove the root prefix of a term name when
 writing it

The children of a term with a name that ends in 'root' were written with a mangled name.
---
 metatab/doc.py   | 3 ++-
 metatab/terms.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index a891f14..2d419e6 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -8,6 +8,7 @@ import collections
 import csv
 import logging
 import pathlib
+import re
 from collections import OrderedDict
 from collections.abc import MutableSequence
 from itertools import groupby
@@ -827,7 +828,7 @@ class MetatabDoc(object):
             for row in s.rows:
                 term, value = row
 
-                term = term.replace('root.', '').title()
+                term = re.sub(r'^root\.', '', term).title()
 
                 try:
                     yield [term] + value
diff --git a/metatab/terms.py b/metatab/terms.py
index 42fa3f8..acdb9bb 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -6,6 +6,7 @@ Special term subclasses
 """
 
 
+import re
 from os.path import split, basename
 from metatab.util import slugify
 
@@ -962,7 +963,7 @@ class SectionTerm(Term):
             if not isinstance(value, (list, tuple)):
                 value = [value]
 
-            term = term.replace('root.', '').title()
+            term = re.sub(r'^root\.', '', term).title()
             yield (term, value[0])
 
             children = list(zip(self.property_names, value[1:]))
-- 
2.43.0


From c539e861e30dd22a8d6ea6adcf9e8a16936ca38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:24 +0000
Subject: [PATCH 14/51] fix: escape the column separator in lines output

The lines reader splits values at an unescaped bar and unescapes the others, but the writer did not escape them.
---
 metatab/terms.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index acdb9bb..e315f45 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -952,9 +952,13 @@ class SectionTerm(Term):
     def lines(self):
         """Iterate over all of the rows as text lines"""
 
+        def escape(v):
+            # A bar separates columns, so it must be escaped within a value
+            return v.replace('|', '\\|') if isinstance(v, str) else v
+
         # Yield the section header
         if self.name != 'Root':
-            yield ('Section', '|'.join([self.value] + self.property_names))
+            yield ('Section', '|'.join(escape(e) for e in [self.value] + self.property_names))
 
         # Yield all of the rows for terms in the section
         for row in self.rows:
@@ -964,14 +968,14 @@ class SectionTerm(Term):
                 value = [value]
 
             term = re.sub(r'^root\.', '', term).title()
-            yield (term, value[0])
+            yield (term, escape(value[0]))
 
             children = list(zip(self.property_names, value[1:]))
 
             for prop, value in children:
                 if value and value.strip():
                     child_t = '.' + (prop.title())
-                    yield ("    "+child_t, value)
+                    yield ("    "+child_t, escape(value))
 
     def as_lines(self):
         return '\n'.join( '{}: {}'.format(t,v if v is not None else '') for t, v  in self.lines )
-- 
2.43.0


From 06ba1bea78fc77db18f126bb5a2a0f30aeb5b104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:24 +0000
Subject: [PATCH 15/51] fix: handle absent terms in errors_as_dict,
 clean_unused_schema_terms and metatab -f

---
 metatab/cli.py    | 4 ++++
 metatab/doc.py    | 2 +-
 metatab/parser.py | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/metatab/cli.py b/metatab/cli.py
index a72bb9d..cc73876 100644
--- a/metatab/cli.py
+++ b/metatab/cli.py
@@ -127,6 +127,10 @@ def metatab():
     elif args.find_first:
 
         t = doc.find_first(args.find_first)
+
+        if t is None:
+            err("No term '{}' in '{}'".format(args.find_first, metadata_url))
+
         print(t.value)
 
 
diff --git a/metatab/doc.py b/metatab/doc.py
index 2d419e6..918795f 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -542,7 +542,7 @@ class MetatabDoc(object):
     def clean_unused_schema_terms(self):
 
         # Remove unused columns in the schema, and add new ones
-        schema_section = self.get_section('Schema')
+        schema_section = self.get_section('Schema', default=None)
 
         if schema_section:
             used_args = set()
diff --git a/metatab/parser.py b/metatab/parser.py
index d775910..188cd3f 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -223,7 +223,7 @@ class TermParser(object):
         for e in sorted(self.errors, key=str):
 
             errors.append({
-                'file': e.term.file_name,
+                'file': e.term.file_name if e.term else '<unknown>',
                 'row': e.term.row if e.term else '<unknown>',
                 'col': e.term.col if e.term else '<unknown>',
                 'term': e.term.join if e.term else '<unknown>',
-- 
2.43.0


From 12c48eefc9ca1b21ef94451feec1e1745a9115ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:24 +0000
Subject: [PATCH 16/51] fix: use qualified names for derived terms and term
 classes

find('Resource') did not return derived terms although find('Root.Resource') does, find() with a list
did not expand any, and terms created through the API did not get the class registered for them.
---
 metatab/doc.py    | 21 ++++++++-------------
 metatab/parser.py |  2 +-
 metatab/terms.py  |  2 +-
 3 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 918795f..e56b380 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -208,7 +208,7 @@ class MetatabDoc(object):
 
     def get_term_class(self, term_name):
 
-        tnl = term_name.lower()
+        tnl = Term.normalize_term(term_name)
 
         try:
             return import_name_or_class(TermParser.term_classes[tnl])
@@ -376,18 +376,13 @@ class MetatabDoc(object):
         # Try to replace the term with the list of its derived terms; that is, replace the super-class with all
         # of the derived classes, but only do this expansion once.
         if _expand_derived:
-            try:
-                try:
-                    # Term is a string
-                    term = sorted(self.derived_terms[term.lower()]) + [term]
-                except AttributeError:  # Term is hopefully a list
-                    terms = []
-                    for t in term:
-                        terms.append(term)
-                        for dt in self.derived_terms[t.lower()]:
-                            terms.append(dt)
-            except KeyError as e:
-                pass
+            terms = []
+            for t in [term] if isinstance(term, str) else term:
+                for dt in sorted(self.derived_terms.get(Term.normalize_term(t), [])) + [t]:
+                    if dt not in terms:
+                        terms.append(dt)
+
+            term = terms
 
         # Find any of a list of terms
         if isinstance(term, (list, tuple)):
diff --git a/metatab/parser.py b/metatab/parser.py
index 188cd3f..b567954 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -202,7 +202,7 @@ class TermParser(object):
 
     def get_term_class(self, term_name):
 
-        tnl = term_name.lower()
+        tnl = Term.normalize_term(term_name)
 
         try:
             return import_name_or_class(self.term_classes[tnl])
diff --git a/metatab/terms.py b/metatab/terms.py
index e315f45..013b753 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -180,7 +180,7 @@ class Term(object):
 
         """
 
-        tc = self.doc.get_term_class(term.lower())
+        tc = self.doc.get_term_class(self.record_term_lc + '.' + self.split_term_lower(term)[1])
 
         c = tc(term, str(value) if value is not None else None,
                parent=self, doc=self.doc, section=self.section).new_children(**kwargs)
-- 
2.43.0


From 6d61946f6ed4e53b3d6a26661c5a88f9c1e54d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:24 +0000
Subject: [PATCH 17/51] fix: declarations that a document already has apply to
 everything it loads later

Declarations given to the constructor did not set super and derived terms, nor the property types and value
names of children, and declarations in a second source loaded into a document did not set super terms.
---
 metatab/doc.py    | 26 ++++++++++++++------------
 metatab/parser.py | 15 +++++++--------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index e56b380..c6d62e7 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -169,12 +169,23 @@ class MetatabDoc(object):
 
         list(term_interp)
 
-        dd = term_interp.declare_dict
+        self._load_declare_dict(term_interp)
+
+        return self
+
+    def _load_declare_dict(self, terms):
+        """Add the declarations that a parser has read to the document"""
+
+        dd = terms.declare_dict
 
         self.decl_terms.update(dd['terms'])
         self.decl_sections.update(dd['sections'])
 
-        return self
+        self.super_terms.update(terms.super_terms())
+
+        kf = lambda e: e[1]  # Sort on the value
+        self.derived_terms = {k: set(e[0] for e in g)
+                              for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}
 
     def add_term(self, t, add_section=True):
         t.doc = self
@@ -486,16 +497,7 @@ class MetatabDoc(object):
                 assert t.parent is not None
 
         try:
-            dd = terms.declare_dict
-
-            self.decl_terms.update(dd['terms'])
-            self.decl_sections.update(dd['sections'])
-
-            self.super_terms.update(terms.super_terms())
-
-            kf = lambda e: e[1]  # Sort on the value
-            self.derived_terms = {k: set(e[0] for e in g)
-                                  for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}
+            self._load_declare_dict(terms)
 
         except AttributeError as e:
             pass
diff --git a/metatab/parser.py b/metatab/parser.py
index b567954..49407d7 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -81,6 +81,11 @@ class TermParser(object):
 
         self.install_declare_terms()
 
+        # Declarations that the document already has also apply to the terms of this parser
+        if self.doc:
+            self._declared_terms.update(self.doc.decl_terms)
+            self._declared_sections.update(self.doc.decl_sections)
+
     @property
     def path(self):
         """Return the path from the row generator, if it is avilable"""
@@ -122,14 +127,8 @@ class TermParser(object):
     def super_terms(self):
         """Return a dictionary mapping term names to their super terms"""
 
-        # If the doc already has super terms, we've already parsed something, so
-        # assume we parsed the declaration, and can use re-use the old decls.
-        if self.doc and self.doc.super_terms:
-            return self.doc.super_terms
-
-
-        return  {k.lower(): v['inheritsfrom'].lower()
-                         for k, v in self._declared_terms.items() if 'inheritsfrom' in v}
+        return {k.lower(): Term.normalize_term(v['inheritsfrom'])
+                for k, v in self._declared_terms.items() if v.get('inheritsfrom')}
 
     @property
     def declare_dict(self):
-- 
2.43.0


From b59a573a03625178e40c312f97b6f828dd3da9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:24 +0000
Subject: [PATCH 18/51] fix: provide the module that the row generator entry
 points refer to

Lines and YAML documents could not be opened by path or URL, because there is no metatab.rowgenerators.
---
 metatab/rowgenerators.py | 6 ++++++
 1 file changed, 6 insertions(+)
 create mode 100644 metatab/rowgenerators.py

diff --git a/metatab/rowgenerators.py b/metatab/rowgenerators.py
new file mode 100644
index 0000000..fe54e79
--- /dev/null
+++ b/metatab/rowgenerators.py
@@ -0,0 +1,6 @@
+# Copyright (c) 2017 Civic Knowledge. This file is licensed under the terms of the
+# MIT License, included in this distribution as LICENSE.txt
+
+"""The row generators, under the module name that the entry points in setup.py refer to"""
+
+from .rowgen import YamlMetatabSource, MetatabRowGenerator, TextRowGenerator
-- 
2.43.0


From 7c188654922ccfb282e343d293d503cb0f42e415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:24 +0000
Subject: [PATCH 19/51] fix: MetatabDoc.load_rows passes its arguments to the
 right parameters of TermParser

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index c6d62e7..dda0d8f 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -511,7 +511,7 @@ class MetatabDoc(object):
 
     def load_rows(self, row_generator):
 
-        term_interp = TermParser(self, row_generator)
+        term_interp = TermParser(self.resolver.get_row_generator(row_generator), resolver=self.resolver, doc=self)
 
         return self.load_terms(term_interp)
 
-- 
2.43.0


From fe75eb782d74f618a3de16ba28d52095910b0470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:24 +0000
Subject: [PATCH 20/51] fix: flatten uses collections.abc

collections.MutableMapping and MutableSequence are gone since Python 3.10.
---
 metatab/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/util.py b/metatab/util.py
index 368ef30..67c410b 100644
--- a/metatab/util.py
+++ b/metatab/util.py
@@ -55,13 +55,13 @@ def flatten(d, sep='.'):
     """Flatten a data structure into tuples"""
 
     def _flatten(e, parent_key='', sep='.'):
-        import collections
+        import collections.abc
 
         prefix = parent_key + sep if parent_key else ''
 
-        if isinstance(e, collections.MutableMapping):
+        if isinstance(e, collections.abc.MutableMapping):
             return tuple((prefix + k2, v2) for k, v in e.items() for k2, v2 in _flatten(v, k, sep))
-        elif isinstance(e, collections.MutableSequence):
+        elif isinstance(e, collections.abc.MutableSequence):
             return tuple((prefix + k2, v2) for i, v in enumerate(e) for k2, v2 in _flatten(v, str(i), sep))
         else:
             return (parent_key, (e,)),
-- 
2.43.0


From 894282f71b72577ecf429acaef2fe8b0fab183b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:24 +0000
Subject: [PATCH 21/51] fix: value and column names of a document do not take
 over the attributes of a term

Setting the section of a term that has 'Section' as its value name, or in a section with a 'Section' column,
changed the value or created a property.
---
 metatab/terms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 013b753..e0c14d6 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -362,9 +362,9 @@ class Term(object):
             # Not initialized yet; set attributes normally.
             return object.__setattr__(self, item, value)
 
-        elif item in self.__dict__ and not (item.lower() == self.term_value_name.lower() or item.lower() == 'value'):
-            # Value already exists as an attribute in the object, and the name is not
-            # the value name
+        elif item != 'value' and (item in self.__dict__ or getattr(getattr(type(self), item, None), 'fset', None)):
+            # Value already exists as an attribute in the object, which a value name or
+            # property name from the document does not change
             object.__setattr__(self, item, value)
 
         elif item.lower() == self.term_value_name.lower() or item.lower() == 'value':
-- 
2.43.0


From c6d23054e42c476194d091787332ee2432e1e627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:03 +0000
Subject: [PATCH 22/51] fix: membership test of a term looks at its properties

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index e0c14d6..210dc68 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -322,7 +322,7 @@ class Term(object):
         if item.lower() == 'value':
             return True
 
-        return item.lower() in self._common_properties or item.lower() in self.properties
+        return item.lower() in self._common_properties or item.lower() in self.props
 
     def __getattr__(self, item):
         """Maps values to attributes.
-- 
2.43.0


From c09d0dfe7c4cb2482b6ae09a9d0dbcc6f4e38706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:03 +0000
Subject: [PATCH 23/51] fix: get_or_new_term without a value keeps the value of
 an existing term

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 210dc68..f987910 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -805,7 +805,7 @@ class SectionTerm(Term):
             t = self.new_term(term, value, **kwargs)
 
         else:
-            if value is not None:
+            if value is not None and value is not False:
                 t.value = value
 
             for k, v in kwargs.items():
-- 
2.43.0


From 9072c2a424f018d2b73427980f944d456aae5d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:03 +0000
Subject: [PATCH 24/51] fix: moving a term to a section removes it from the
 section it was in

---
 metatab/terms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index f987910..67ab16b 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -757,6 +757,10 @@ class SectionTerm(Term):
         """Add a term to this section and set it's ownership. Should only be used on root level terms"""
         if t not in self.terms:
             if t.parent_term_lc == 'root':
+                if t.section and t.section is not self:
+                    t.section.remove_term(t, remove_from_doc=False)
+
+                t.section = self
                 self.terms.append(t)
 
                 self.doc.add_term(t, add_section=False)
-- 
2.43.0


From 77d78b879a1222c6661d1dcbf40ac2bec683a5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:03 +0000
Subject: [PATCH 25/51] fix: deleting a section also removes its terms from
 their parent

---
 metatab/doc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index dda0d8f..297a96b 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -330,8 +330,8 @@ class MetatabDoc(object):
 
         try:
             if item.lower() in self.sections:
-                for t in self.sections[item.lower()]:
-                    self.terms.remove(t)
+                for t in list(self.sections[item.lower()]):
+                    self.remove_term(t)
 
             del self.sections[item.lower()]
         except KeyError:
-- 
2.43.0


From 4071b9486b902b8fa45577cbdbebde8e968756d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:03 +0000
Subject: [PATCH 26/51] fix: convert_to_datapackage handles absent sections and
 properties

---
 metatab/datapackage.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index 356ead5..5f0fc0d 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -32,10 +32,13 @@ def convert_to_datapackage(doc):
 
     try:
         table_schemas = {t.value: t.as_dict()['column'] for t in doc['schema']}
-    except KeyError as e:
+    except (KeyError, TypeError) as e:
         raise ConversionError("Failed to get schemas: " + str(e))
 
-    file_resources = [fr.arg_props for fr in doc['resources'] if fr.term_is('root.datafile')]
+    try:
+        file_resources = [fr.arg_props for fr in doc['resources'] if fr.term_is('root.datafile')]
+    except KeyError as e:
+        raise ConversionError("Failed to get resources: " + str(e))
 
     dp['resources'] = []
 
@@ -59,8 +62,8 @@ def convert_to_datapackage(doc):
             return d
 
         dr = dict(
-            path=r['url'],
-            name=r['name'],
+            path=r.get('url'),
+            name=r.get('name'),
             schema={'fields': [mkdict(c) for c in columns]}
         )
 
-- 
2.43.0


From 8b1dfc5ed6c91b0b8a0963285c1771d8d814a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:49 +0000
Subject: [PATCH 27/51] fix: a term has its _doc attribute from the start, so a
 property of that name does not take it over

---
 metatab/terms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 67ab16b..243a32d 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -70,6 +70,7 @@ class Term(object):
         self.args = [strip_if_str(x) for x in (term_args or [])]
 
         self._section = None
+        self._doc = None
         self.section = section
         self.doc = doc
 
-- 
2.43.0


From 5ec7348ff0c1ccb0f8d2b82923e1c582079a7882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:03 +0000
Subject: [PATCH 28/51] fix: a new section gets its own copy of the declared
 columns

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 297a96b..21620a2 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -277,7 +277,7 @@ class MetatabDoc(object):
         s = self.sections[name.lower()]
 
         if name.lower() in self.decl_sections:
-            s.args = self.decl_sections[name.lower()]['args']
+            s.args = list(self.decl_sections[name.lower()]['args'])
 
         return s
 
-- 
2.43.0


From b7dae4aac93e47bd8c5be22d68fdd5b81d5d782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:49 +0000
Subject: [PATCH 29/51] fix: adding a child to another term removes it from the
 children of its old parent

---
 metatab/terms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 243a32d..9130dda 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -168,6 +168,12 @@ class Term(object):
     def add_child(self, child):
         """Add a term to this term's children. Also sets the child term's parent"""
         assert isinstance(child, Term)
+
+        old = child.parent
+
+        if old is not None and old is not self and child in old.children:
+            old.children.remove(child)
+
         self.children.append(child)
         child.parent = self
         assert not child.term_is("Datafile.Section")
-- 
2.43.0


From 9f63ccb5a02848463b867d2e199809d06d4f0277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:26 +0000
Subject: [PATCH 30/51] fix: the target of a metatab URL is the default file
 only if that is the file name

---
 metatab/appurl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index 28d11be..d5da2ba 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -66,7 +66,7 @@ class MetatabUrl(InnerFile, Url):
 
     @property
     def target_file(self):
-        if self.path.endswith(DEFAULT_METATAB_FILE):
+        if basename(self.path) == DEFAULT_METATAB_FILE:
             return DEFAULT_METATAB_FILE
         elif self.resource_format in self.simple_file_formats:
             return self.resource_file
-- 
2.43.0


From adbdd4d0d522c995109aa327339b30986580c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:44 +0000
Subject: [PATCH 31/51] fix: lines output has properties whose value is a
 number

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 9130dda..e77ac83 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -984,7 +984,7 @@ class SectionTerm(Term):
             children = list(zip(self.property_names, value[1:]))
 
             for prop, value in children:
-                if value and value.strip():
+                if value is not None and str(value).strip():
                     child_t = '.' + (prop.title())
                     yield ("    "+child_t, escape(value))
 
-- 
2.43.0


From ace6c13def4db335078078f6a6cf0f1c54d4465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:34 +0000
Subject: [PATCH 32/51] fix: find lists a term once, whatever the spellings of
 its name in the list of names

---
 metatab/doc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 21620a2..f18a7a3 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -389,7 +389,8 @@ class MetatabDoc(object):
         if _expand_derived:
             terms = []
             for t in [term] if isinstance(term, str) else term:
-                for dt in sorted(self.derived_terms.get(Term.normalize_term(t), [])) + [t]:
+                t = Term.normalize_term(t)
+                for dt in sorted(self.derived_terms.get(t, [])) + [t]:
                     if dt not in terms:
                         terms.append(dt)
 
-- 
2.43.0


From 3ba3458929b943ca1d69ce6aa066ab39552924a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:59 +0000
Subject: [PATCH 33/51] fix: a zero in the value column is a value

---
 metatab/terms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index e77ac83..a98c3f1 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -66,7 +66,9 @@ class Term(object):
 
         self._orig_term = term
 
-        self.value = strip_if_str(value) if value else None
+        # None, False and the empty string are no value, but a zero is.
+        no_value = value is None or value is False or value == ''
+        self.value = None if no_value else strip_if_str(value)
         self.args = [strip_if_str(x) for x in (term_args or [])]
 
         self._section = None
-- 
2.43.0


From 99882cb4b22b8f1f062188a64617a5aec5edfb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:03 +0000
Subject: [PATCH 34/51] fix: a document file that cannot be read is not taken
 for the text of a document

---
 metatab/rowgen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metatab/rowgen.py b/metatab/rowgen.py
index 6f8df1b..5294107 100644
--- a/metatab/rowgen.py
+++ b/metatab/rowgen.py
@@ -151,6 +151,9 @@ class TextRowGenerator(MetatabRowGenerator):
                 with open(ref, encoding='utf8') as r:
                     text = r.read()
                 break
+            except (UnicodeDecodeError, PermissionError):
+                # The file is there, so the ref is not the text of the document
+                raise
             except Exception:
                 pass
 
-- 
2.43.0


From 8dc2235b7ff2b9800650560f129a704d0fecaf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:07 +0000
Subject: [PATCH 35/51] fix: a term with the name of its parent is a child of
 its parent, not of itself

---
 metatab/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 49407d7..016b535 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -501,16 +501,16 @@ class TermParser(object):
                         last_term_map[last_parent_term].add_child(t)
 
                     else:
-                        last_parent_term = t.record_term
-                        last_term_map[ELIDED_TERM] = t
-                        last_term_map[t.record_term] = t
-
                         try:
                             last_term_map[t.parent_term].add_child(t)
                         except KeyError:
                             raise ParserError("No parent term for '{}' in term '{}', row = {}"
                                               .format(t.parent_term, t.term, t.row))
 
+                        last_parent_term = t.record_term
+                        last_term_map[ELIDED_TERM] = t
+                        last_term_map[t.record_term] = t
+
                     if t.parent_term_lc == 'root':
                         last_section.add_term(t)
 
-- 
2.43.0


From 843bb241b74dbbf09ac2c1137690dd0b5cec56f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:53 +0000
Subject: [PATCH 36/51] fix: returning to the root section resets the columns,
 the value name and the parent

After an include in the root section, or an explicit Root section, the columns,
default value name and last parent of the included document's last section
stayed in force for the rows of the root section.
---
 metatab/parser.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 016b535..9f2ce08 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -457,7 +457,7 @@ class TermParser(object):
                     last_section.default_term_value_name = default_term_value_name
                     continue
 
-                elif t.term_is('root.section'):
+                elif t.term_is('root.section') or t.term_is('root.root'):
                     self._param_map = munge_param_map(t)
                     # Parentage should not persist across sections
                     last_parent_term = self.root.record_term
@@ -466,10 +466,6 @@ class TermParser(object):
                     default_term_value_name = '@value'
                     t.section = None
 
-                elif t.term_is('root.root'):
-                    last_section = t
-                    t.section = None
-
                 else:
 
                     # Case for normal, value-bearing terms
-- 
2.43.0


From 13a2a45b6f1b79f49572e84e994519a2139dfc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:35 +0000
Subject: [PATCH 37/51] fix: after an include in an included document its
 section is in force again

An included document without sections of its own went back to the root
section, instead of the section it was included in.
---
 metatab/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 9f2ce08..da636b7 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -302,7 +302,7 @@ class TermParser(object):
         children.
         :param file_type:
         :param doc:
-        :param root:
+        :param root: The section in force at the start of the document
         :param ref:
         :param including: References of the documents that are including this one
 
@@ -357,7 +357,7 @@ class TermParser(object):
                         if str(sub_gen.ref) in including:
                             raise IncludeError("Include loop for '{}' ".format(resolved))
 
-                        for t in self.generate_terms(sub_gen, root, file_type=t.record_term_lc,
+                        for t in self.generate_terms(sub_gen, last_section, file_type=t.record_term_lc,
                                                      including=including):
                             yield t
 
-- 
2.43.0


From 27e571ab11f4216388d7dcd35a4c218bf124b17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:00 +0000
Subject: [PATCH 38/51] fix: a name in an included document is relative to that
 document, also in nested includes

The path of an included document was taken to be the name of its generator
class, so a relative Include or Declare in an included document could not be
resolved, and its terms and errors reported the class name as their file.
---
 metatab/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index da636b7..03be3d4 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -313,7 +313,8 @@ class TermParser(object):
 
         if isinstance(ref, Source):
             row_gen = ref
-            ref_path = row_gen.__class__.__name__
+            # Generators of rows or text that isn't in a file don't have a path
+            ref_path = getattr(row_gen.ref, 'path', None) or row_gen.__class__.__name__
         else:
             row_gen = get_generator(ref)
             ref_path = ref.path
-- 
2.43.0


From 5fcd05b2c43e7e1ee3911cc9a486b14399e21ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:19 +0000
Subject: [PATCH 39/51] fix: a loop of relative includes is found for every
 spelling of the paths

With a relative name such as ../dir/doc.csv every turn of the loop had a longer
path, so the loop was not detected.
---
 metatab/parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 03be3d4..7f44a67 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -19,7 +19,7 @@ METATAB_ASSETS_URL = 'http://assets.metatab.org/'
 from .terms import Term, SectionTerm, RootSectionTerm
 
 from .exc import IncludeError, DeclarationError, ParserError, GenerateError
-from os.path import dirname, join, exists
+from os.path import dirname, join, exists, realpath
 from .util import declaration_path, import_name_or_class
 
 from functools import lru_cache
@@ -259,7 +259,7 @@ class TermParser(object):
 
             for fn in (join(d, name), join(d, name + '.csv')):
                 if exists(fn):
-                    path = fn
+                    path = realpath(fn)
                     break
             if path:
                 break
@@ -293,7 +293,8 @@ class TermParser(object):
                 raise IncludeError("Can't include '{}' because don't know current path "
                                    .format(name))
 
-            path = join(d, include_ref)
+            # The real path, so that a loop of includes comes back to the same path
+            path = realpath(join(d, include_ref))
 
         return parse_app_url(path)
 
-- 
2.43.0


From 8ff948ace45097d6c911a32dca7bf97ea578a9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:12 +0000
Subject: [PATCH 40/51] fix: the header of a section is in force again after an
 include

---
 metatab/parser.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 7f44a67..a1aae7e 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -298,7 +298,7 @@ class TermParser(object):
 
         return parse_app_url(path)
 
-    def generate_terms(self, ref, root, file_type=None, including=()):
+    def generate_terms(self, ref, root, file_type=None, including=(), header=None):
         """An generator that yields term objects, handling includes and argument
         children.
         :param file_type:
@@ -306,10 +306,12 @@ class TermParser(object):
         :param root: The section in force at the start of the document
         :param ref:
         :param including: References of the documents that are including this one
+        :param header: The header in force at the start of the document
 
         """
 
         last_section = root
+        last_header = header
         t = None
 
         if isinstance(ref, Source):
@@ -360,12 +362,15 @@ class TermParser(object):
                             raise IncludeError("Include loop for '{}' ".format(resolved))
 
                         for t in self.generate_terms(sub_gen, last_section, file_type=t.record_term_lc,
-                                                     including=including):
+                                                     including=including, header=last_header):
                             yield t
 
                         if last_section:
                             yield last_section  # Re-assert the last section
 
+                        if last_header:
+                            yield last_header  # And its header
+
                     except IncludeError as e:
                         e.term = t
                         raise
@@ -388,6 +393,11 @@ class TermParser(object):
                     except (KeyError, TypeError): # TypeError -> self.doc is None
                         last_section = t
 
+                    last_header = None
+
+                elif t.term_is('header'):
+                    last_header = t
+
                 yield t
 
                 # Yield any child terms, from the term row arguments
-- 
2.43.0


From a59c5005382a1efdbf9fdaf69557bf1375a854df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 41/51] fix: the columns of a section declared in the document
 are those of its section without columns

Declared columns only applied when the declaration was given to the constructor,
not when the document has a Declare term.
---
 metatab/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metatab/parser.py b/metatab/parser.py
index a1aae7e..a67cec0 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -393,6 +393,10 @@ class TermParser(object):
                     except (KeyError, TypeError): # TypeError -> self.doc is None
                         last_section = t
 
+                        # The columns that were declared earlier in this document
+                        if not t.args:
+                            t.args = list(self._declared_sections.get(t.value.lower(), {}).get('args', []))
+
                     last_header = None
 
                 elif t.term_is('header'):
-- 
2.43.0


From 35ad7f74d7adc1650f0541173ea188b18b03cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:39 +0000
Subject: [PATCH 42/51] fix: a term with an elided parent gets the declared
 value name and property type of its term

The declarations were looked up before the parent was known, under the name of
the elided parent.
---
 metatab/parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index a67cec0..a6b2224 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -486,6 +486,12 @@ class TermParser(object):
 
                     # Case for normal, value-bearing terms
 
+                    elided_parent = t.has_elided_parent
+
+                    if elided_parent:
+                        # Elided parent terms refer to the last term that can be a parent
+                        t.parent_term = last_parent_term # After this t.has_elided_parent will be False
+
                     t.child_property_type = self._declared_terms \
                         .get(t.join, {}) \
                         .get('childpropertytype', 'any')
@@ -503,10 +509,7 @@ class TermParser(object):
                     # Only terms with the term name in the first column can be parents of
                     # other terms. This rule excludes argument terms and terms with an elided parent
 
-                    if t.has_elided_parent:
-                        # Elided parent terms refer to the last term that can be a parent
-                        t.parent_term = last_parent_term # After this t.has_elided_parent will be False
-
+                    if elided_parent:
                         last_term_map[last_parent_term].add_child(t)
 
                     elif t.is_arg_child:
-- 
2.43.0


From e3468aac08bc2504e91e8e5f33253a5d01f82d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:22 +0000
Subject: [PATCH 43/51] fix: the arguments of a row are properties of the term
 of that row

In a row with an elided parent they became properties of the parent.
---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index a6b2224..fb6e309 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -513,7 +513,7 @@ class TermParser(object):
                         last_term_map[last_parent_term].add_child(t)
 
                     elif t.is_arg_child:
-                        last_term_map[last_parent_term].add_child(t)
+                        t.parent.add_child(t)  # The term of the row that the argument is in
 
                     else:
                         try:
-- 
2.43.0


From 1517ea15a8a589a6f2c09aaf315378059b4f90d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:01 +0000
Subject: [PATCH 44/51] fix: what a declaration document includes is part of
 the declarations

The terms of a document that a declaration document includes were added to the
document that is being parsed, instead of being declared.
---
 metatab/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index fb6e309..8b7cba5 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -361,7 +361,10 @@ class TermParser(object):
                         if str(sub_gen.ref) in including:
                             raise IncludeError("Include loop for '{}' ".format(resolved))
 
-                        for t in self.generate_terms(sub_gen, last_section, file_type=t.record_term_lc,
+                        # What a declaration document includes is also part of the declarations
+                        sub_type = 'declare' if file_type == 'declare' else t.record_term_lc
+
+                        for t in self.generate_terms(sub_gen, last_section, file_type=sub_type,
                                                      including=including, header=last_header):
                             yield t
 
-- 
2.43.0


From 9bc6a5f3b345a97bdc6c04865ed080f013d37151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:19 +0000
Subject: [PATCH 45/51] fix: an include error names the include or declare term
 that failed

---
 metatab/parser.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 8b7cba5..2ab4b30 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -347,15 +347,17 @@ class TermParser(object):
 
                 if t.term_is('include') or t.term_is('declare'):
 
-                    if t.term_is('include'):
-                        resolved = self.find_include_doc(dirname(ref_path), t.value.strip())
-                    else:
-                        resolved = self.find_declare_doc(dirname(ref_path), t.value.strip())
-
-                    yield t
+                    include_term = t  # The nested terms are also assigned to t
 
                     try:
 
+                        if t.term_is('include'):
+                            resolved = self.find_include_doc(dirname(ref_path), t.value.strip())
+                        else:
+                            resolved = self.find_declare_doc(dirname(ref_path), t.value.strip())
+
+                        yield t
+
                         sub_gen = get_generator(resolved.get_resource().get_target())
 
                         if str(sub_gen.ref) in including:
@@ -375,12 +377,13 @@ class TermParser(object):
                             yield last_header  # And its header
 
                     except IncludeError as e:
-                        e.term = t
+                        if getattr(e, 'term', None) is None:  # Otherwise, it is from a nested document
+                            e.term = include_term
                         raise
 
                     except (OSError,  FileNotFoundError, GenerateError, DownloadError) as e:
                         e = IncludeError("Failed to Include; {}".format(e))
-                        e.term = t
+                        e.term = include_term
                         raise e
 
                     continue  # Already yielded the include/declare term, and includes can't have children
-- 
2.43.0


From b959a65303c955f33e500457d5cc08bb27605bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:26 +0000
Subject: [PATCH 46/51] fix: a missing or unreadable included document is an
 include error

---
 metatab/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 2ab4b30..16fa70e 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -8,7 +8,7 @@ objects.
 """
 
 from rowgenerators import Source, get_generator, Url, parse_app_url
-from rowgenerators.exceptions import DownloadError
+from rowgenerators.exceptions import RowGeneratorError
 
 ROOT_TERM = 'root'  # No parent term -- no '.' --  in term cell
 
@@ -381,7 +381,7 @@ class TermParser(object):
                             e.term = include_term
                         raise
 
-                    except (OSError,  FileNotFoundError, GenerateError, DownloadError) as e:
+                    except (OSError,  FileNotFoundError, GenerateError, RowGeneratorError) as e:
                         e = IncludeError("Failed to Include; {}".format(e))
                         e.term = include_term
                         raise e
-- 
2.43.0


From 1c0859e5f542ab0844f87d84b6b2ca8acf40a65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:24 +0000
Subject: [PATCH 47/51] fix: a section reports its own column

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index a98c3f1..157b498 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -713,7 +713,7 @@ class SectionTerm(Term):
         assert section is None
 
         super().__init__(term, value, term_args=section_args,
-                         row=row, col=row, file_name=file_name, file_type=file_type,
+                         row=row, col=col, file_name=file_name, file_type=file_type,
                          parent=parent, doc=doc, section=section)
 
         self.header_args = []  # Set for each header encoundered
-- 
2.43.0


From c2fd6ace01c75bcb6b359adf14e92d2046156a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:34 +0000
Subject: [PATCH 48/51] fix: comment lines of the lines format count as rows

---
 metatab/rowgen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metatab/rowgen.py b/metatab/rowgen.py
index 5294107..cd63004 100644
--- a/metatab/rowgen.py
+++ b/metatab/rowgen.py
@@ -185,7 +185,8 @@ class TextRowGenerator(MetatabRowGenerator):
         import re
 
         for row in self._text_lines:
-            if re.match(r'^\s*#', row):  # Skip comments
+            if re.match(r'^\s*#', row):  # The parser skips comments, but they count as rows
+                yield [row.strip()]
                 continue
 
             # Special handling for ====, which implies a section:
-- 
2.43.0


From 75cdd64fe21e9f81089bf992137e438118216949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:04 +0000
Subject: [PATCH 49/51] fix: a version of zero is part of the generated name

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index f18a7a3..f175dbc 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -791,7 +791,7 @@ class MetatabDoc(object):
 
         parts = [slugify(str(e).replace('-', '_')) for e in (
             origin, datasetname, time, space, grain, variant, version)
-                 if e and str(e).strip()]
+                 if e is not None and str(e).strip()]
 
         return '-'.join(parts)
 
-- 
2.43.0


From 23cfb41bda35b4ed8cc98afc9b1fe57d4f897b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:18 +0000
Subject: [PATCH 50/51] fix: set_terms takes a text of two characters as a
 value

---
 metatab/terms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 157b498..93a7ee1 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -847,10 +847,11 @@ class SectionTerm(Term):
             self.add_term(t)
 
         for k,v in kw_terms.items():
-            try:
+            # A text of two characters is a value, not a pair of a value and its properties
+            if isinstance(v, (tuple, list)) and len(v) == 2:
                 value, props = v
-            except (ValueError, TypeError) as e:
-                value, props = v,{}
+            else:
+                value, props = v, {}
 
             self.new_term(k,value,**props)
 
-- 
2.43.0


From c69d2e281573b3dac7615113bcbe88cd27948da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:40 +0000
Subject: [PATCH 51/51] fix: a property can be set to a text with space around
 it

---
 metatab/terms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 93a7ee1..7fa173c 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -322,8 +322,10 @@ class Term(object):
         else:
             c = self.get_or_new_child(item, value)
 
-            # There is a bug where these two values may be different by a trailing space
-            assert self[item].value == value or (self[item].value is None and value == ''), \
+            # A new term does not have the space around its value
+            stripped = value.strip() if isinstance(value, str) else value
+
+            assert self[item].value in (value, stripped) or (self[item].value is None and value == ''), \
                 "Item value '{}' is different from set value '{}' ".format(self[item].value, value)
 
     def __contains__(self, item):
-- 
2.43.0

