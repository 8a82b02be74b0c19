From 008072f55ac32e47f1d792987c78b543cc0933f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:45 +0000
Subject: [PATCH 01/36] fix: assigning None to a weak attribute clears the
 previous reference

---
 src/disseminate/utils/classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/utils/classes.py b/src/disseminate/utils/classes.py
index 5738162..37ce662 100644
--- a/src/disseminate/utils/classes.py
+++ b/src/disseminate/utils/classes.py
@@ -135,10 +135,11 @@ class weakattr(object):
         return value() if callable(value) else None
 
     def __set__(self, obj, value):
-        if value is None:  # do nothing is a value of None is assigned
-            return
         weakref_dict = obj.__dict__.setdefault('__weakrefattrs__', dict())
         attrname = self.attrname(obj)
+        if value is None:  # remove the reference if None is assigned
+            weakref_dict.pop(attrname, None)
+            return
         weakref_dict[attrname] = weakref.ref(value)
 
     def __delete__(self, obj):
-- 
2.43.0


From f6108854b5761734cab600cfe34ed8288e48773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:48 +0000
Subject: [PATCH 02/36] fix: positional attribute lookup respects the target
 suffix and values are returned unchanged

---
 src/disseminate/attributes/attributes.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/disseminate/attributes/attributes.py b/src/disseminate/attributes/attributes.py
index 2fdfdbf..5881a64 100644
--- a/src/disseminate/attributes/attributes.py
+++ b/src/disseminate/attributes/attributes.py
@@ -255,17 +255,18 @@ class Attributes(dict):
             # ex: StringPositionalValue
             items = [(k, v) for k, v in self.items() if ispositional(v, attr)]
 
-            if target:
-                # Filter by target, if specific
-                target_items = [(k, v) for k, v in items if k.endswith(target)]
-            else:
-                # Otherwise remove entries that have target-specific
-                target_items = [(k, v) for k, v in items
-                                if not is_target_specific(k, sep=sep)]
+            # Find the items specific to the target, if specified, and the items
+            # that are not target-specific
+            target_items = ([(k, v) for k, v in items
+                             if k.endswith(sep + target)] if target else [])
+            general_items = [(k, v) for k, v in items
+                             if not is_target_specific(k, sep=sep)]
 
             # Return the first item found
             if target_items:
                 return target_items[0]
+            elif general_items:
+                return general_items[0]
             elif items:
                 return items[0]
 
@@ -322,9 +323,7 @@ class Attributes(dict):
                             sep=sep)
         if isinstance(rv, tuple) and len(rv) == 2:
             key, value = rv
-            rv = key if ispositional(attr) else value
-
-            return strip_attr(rv, sep=sep) if isinstance(rv, str) else rv
+            return strip_attr(key, sep=sep) if ispositional(attr) else value
         else:
             return rv
 
@@ -443,7 +442,7 @@ class Attributes(dict):
 
         # Setup the attrs without target-specific values
         attrs = ([attrs] if isinstance(attrs, str) or
-                 isinstance(attrs, PositionalValue)
+                 ispositional(attrs)
                  else attrs)  # wrap strings
         attrs = (list(self.keys())
                  if attrs is None else attrs)  # populate empty attrs
-- 
2.43.0


From 47f079e7f1aa56a8dba51e56905706bb599212c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:24 +0000
Subject: [PATCH 03/36] fix: context updates of booleans and numbers ignore
 values that cannot be converted

---
 src/disseminate/context/context.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/context/context.py b/src/disseminate/context/context.py
index 36b425d..2939073 100644
--- a/src/disseminate/context/context.py
+++ b/src/disseminate/context/context.py
@@ -472,7 +472,7 @@ class BaseContext(dict):
             # For immutable types, like ints, covert strings into their
             # proper format and replace the original's value
             elif isinstance(original_value, bool):
-                change_value_lower = change_value.lower().strip()
+                change_value_lower = str(change_value).lower().strip()
                 if change_value_lower == 'false':
                     self[key] = False
                 elif change_value_lower == 'true':
@@ -481,13 +481,13 @@ class BaseContext(dict):
             elif isinstance(original_value, int):
                 try:
                     self[key] = int(change_value)
-                except ValueError:
+                except (ValueError, TypeError, OverflowError):
                     pass
 
             elif isinstance(original_value, float):
                 try:
                     self[key] = float(change_value)
-                except ValueError:
+                except (ValueError, TypeError, OverflowError):
                     pass
 
             # Otherwise, if the original value's type and change value type
-- 
2.43.0


From 4166991230f5cd35ee2bf71cc06f482cead3cb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:02 +0000
Subject: [PATCH 04/36] fix: values nested in context entries are not shared
 between contexts

---
 src/disseminate/context/context.py | 37 ++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/disseminate/context/context.py b/src/disseminate/context/context.py
index 2939073..4cf4a34 100644
--- a/src/disseminate/context/context.py
+++ b/src/disseminate/context/context.py
@@ -18,6 +18,29 @@ class ContextException(Exception):
     pass
 
 
+def copy_nested(value):
+    """Create a copy of a (nested) list, tuple, set or dict.
+
+    Parameters
+    ----------
+    value : Any
+        The value to copy
+
+    Returns
+    -------
+    copied_value : Any
+        The copy with copies of the nested lists, tuples, sets and dicts. Other
+        objects are referenced directly.
+    """
+    if type(value) in (list, tuple):
+        return type(value)([copy_nested(item) for item in value])
+    elif type(value) == set:
+        return set(value)
+    elif type(value) == dict:
+        return {k: copy_nested(item) for k, item in value.items()}
+    return value
+
+
 class BaseContext(dict):
     """A context dict with entries used for rendering target documents.
 
@@ -227,8 +250,8 @@ class BaseContext(dict):
         .. note:: Entries in the parent_context are copied to this context.
                   If the parent_context entry is a mutable, like a list or
                   dict, then a copy of that mutable is created if a 'copy'
-                  method exists for that mutable. However, mutables within
-                  those mutables will still point to the original.
+                  method exists for that mutable. The lists, sets and dicts
+                  within those mutables are copied as well.
 
         Examples
         --------
@@ -350,7 +373,7 @@ class BaseContext(dict):
         1. New entries from 'changes' are copied
 
            a. If the change's value has a 'copy' method, a copy is created
-              with that method
+              with that method, and the nested lists, sets and dicts are copied
            b. Otherwise, the value is copied directly
 
         2. Existing entries are converted to the type of the value in this
@@ -404,11 +427,11 @@ class BaseContext(dict):
 
                 except TypeError:
                     # Other objects, like dicts, have a copy method to create
-                    # a shallow copy, but these do not accept keyword arguments
-                    self[key] = change_value.copy()
+                    # a copy, but these do not accept keyword arguments
+                    self[key] = copy_nested(change_value.copy())
                 except AttributeError:
                     # Otherwise reference the value directly, like immutables
-                    self[key] = change_value
+                    self[key] = copy_nested(change_value)
                 continue
 
             # At this point, the key already exists in self. If overwrite is
@@ -434,7 +457,7 @@ class BaseContext(dict):
             if isinstance(original_value, list):
                 change_value = (str_to_list(change_value)
                                 if isinstance(change_value, str) else
-                                list(change_value))
+                                copy_nested(list(change_value)))
                 original_value[0:0] = change_value  # prepend to top
 
             # 3. *sets*. Create a copy from changes
-- 
2.43.0


From c0c90abbbc7fa7f465dc2ed63dc3e529f99964ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:02 +0000
Subject: [PATCH 05/36] fix: a header is only closed by a line with the same
 dashes

---
 src/disseminate/context/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/context/utils.py b/src/disseminate/context/utils.py
index 72d2033..7dd61cb 100644
--- a/src/disseminate/context/utils.py
+++ b/src/disseminate/context/utils.py
@@ -6,7 +6,8 @@ from ..utils.string import str_to_dict
 
 re_header_block = regex.compile(r'^[\s\n]*(-{3,})\s*\n'
                                 r'(?P<header>.+?)'
-                                r'(\n\s*\g<1>)\n?', regex.DOTALL)
+                                r'(\n\s*\g<1>)[^\S\n]*(?:\n|\Z)',
+                                regex.DOTALL)
 
 
 def find_header_entries(context):
-- 
2.43.0


From 314321c841af096087e708cb1810e3469e7b4dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:02 +0000
Subject: [PATCH 06/36] fix: header entries unescape colons and keep all text
 of lines indented less

---
 src/disseminate/utils/string.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/utils/string.py b/src/disseminate/utils/string.py
index f419b53..f5d9da7 100644
--- a/src/disseminate/utils/string.py
+++ b/src/disseminate/utils/string.py
@@ -377,7 +377,9 @@ def str_to_dict(string, strip_quotes=True):
 
         # Workup the line. Strip leading spaces from the line.
         if current_spaces is not None:
-            line = line[current_spaces:]
+            # (lines that are indented less do not lose text)
+            indent = len(line) - len(line.lstrip())
+            line = line[min(indent, current_spaces):]
 
         # Replace escaped colons ('\:') with colons (':')
         line = line.replace("\\:", ":")
@@ -388,8 +390,8 @@ def str_to_dict(string, strip_quotes=True):
             # as the last entry.
             group_dict = m.groupdict()
             space_level = len(group_dict['space_level'])
-            key = group_dict['key'].strip()
-            value = group_dict['value']
+            key = group_dict['key'].strip().replace("\\:", ":")
+            value = group_dict['value'].replace("\\:", ":")
 
             if current_spaces is not None and space_level > current_spaces:
                 # Not a new entry. Just add the line to the last entry.
-- 
2.43.0


From 5813ab1d0d982732495c7d69589853542f35d51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:02 +0000
Subject: [PATCH 07/36] fix: strip the space around a single list item like
 around many

---
 src/disseminate/utils/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/utils/string.py b/src/disseminate/utils/string.py
index f5d9da7..7c288b7 100644
--- a/src/disseminate/utils/string.py
+++ b/src/disseminate/utils/string.py
@@ -320,7 +320,7 @@ def str_to_list(string):
     if len(pieces_comma) > 1:
         return [piece.strip() for piece in pieces_comma]
 
-    return [string]
+    return [string.strip()]
 
 
 _re_entry = regex.compile(r'^(?P<space_level>\s*)'
-- 
2.43.0


From 65ad9d42561236ef4beeef16fa117c7e56999289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:24 +0000
Subject: [PATCH 08/36] fix: stripping quotes does not double the space of
 blank lines

---
 src/disseminate/utils/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/utils/string.py b/src/disseminate/utils/string.py
index 7c288b7..7993ec0 100644
--- a/src/disseminate/utils/string.py
+++ b/src/disseminate/utils/string.py
@@ -199,7 +199,7 @@ def strip_end_quotes(s):
         return '\n'.join(map(strip_end_quotes, s.splitlines()))
 
     for char in "\'\"":
-        if s.count(char) % 2 == 0:  # even number of quotes
+        if char in s and s.count(char) % 2 == 0:  # even number of quotes
             pieces = s.split(char)
             if pieces[0].strip() == '' and pieces[-1].strip() == '':
                 return ''.join((pieces[0], char.join(pieces[1:-1]),
-- 
2.43.0


From c8858979cf975e7cc0c5ec22e0833348b8fe8075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:45 +0000
Subject: [PATCH 09/36] fix: macro expansion resolves chains of macros and
 terminates for self-referential ones

---
 src/disseminate/utils/string.py | 42 +++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/disseminate/utils/string.py b/src/disseminate/utils/string.py
index 7993ec0..0f8220b 100644
--- a/src/disseminate/utils/string.py
+++ b/src/disseminate/utils/string.py
@@ -496,7 +496,7 @@ def replace_macros(s, *dicts):
         Raises a MacroNotFound exception if a macro was included, but it could
         not be found.
     """
-    # Replace the values
+    # Find the name and string for a match
     def _substitute(m):
         # Get the string for the match
         # ex: macro = '@friend.name'
@@ -506,6 +506,7 @@ def replace_macros(s, *dicts):
         # Split at periods
         # ex: pieces = ['@friend', 'name']
         pieces = macro.split('.')
+        name = pieces[0]
 
         # See if the first piece corresponds to an entry in kwargs
         obj = None
@@ -526,18 +527,33 @@ def replace_macros(s, *dicts):
 
         # Convert obj and the remaining pieces to a string
         if obj is None:
-            # no match found. Return the match
-            return m.group()
+            # no match found.
+            return name, None
         else:
             # match(es) found, replace with the string
-            return str(obj) + ''.join('.' + piece for piece in pieces)
-
-    # Return a string with the dicts substituted. Keep substituting until
-    # all dicts are replaced or the string is no longer changing
-    s, num_subs = _re_macro.subn(_substitute, s)
-    last_num_subs = 0
-    while num_subs > 0 and num_subs > last_num_subs:
-        last_num_subs = num_subs
-        s, num_subs = _re_macro.subn(_substitute, s)
+            return name, str(obj) + ''.join('.' + piece for piece in pieces)
+
+    # Return a string with the dicts substituted. The substituted values are
+    # processed for macros themselves. The values of self-referential macros
+    # are only used twice within each other, so that processing ends.
+    processed = []
+    stack = [(s, 0, ())]  # strings, positions and names of macros in use
+    while stack:
+        string, position, names = stack.pop()
+        m = _re_macro.search(string, position)
+
+        if m is None:
+            processed.append(string[position:])
+            continue
+
+        # Process the text up to the match, then the match and then the rest
+        processed.append(string[position:m.start()])
+        stack.append((string, m.end(), names))
+
+        name, value = _substitute(m)
+        if value is None or names.count(name) > 1:
+            processed.append(m.group())
+        else:
+            stack.append((value, 0, names + (name,)))
 
-    return s
+    return ''.join(processed)
-- 
2.43.0


From a8f3238a17ede3ec33e7dd87ca412b5a9fb2a9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:41 +0000
Subject: [PATCH 10/36] fix: tags without content items are not dropped from
 parsed text

---
 src/disseminate/utils/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/utils/string.py b/src/disseminate/utils/string.py
index 0f8220b..e583705 100644
--- a/src/disseminate/utils/string.py
+++ b/src/disseminate/utils/string.py
@@ -440,7 +440,7 @@ def group_strings(lst):
         lst.content = group_strings(lst.content)
     elif isinstance(lst, list):
         # Remove empty strings
-        new_list = list(filter(bool, lst))
+        new_list = [item for item in lst if item != '']
         lst.clear()
         lst += new_list
 
-- 
2.43.0


From f17faff76c364de18ddd31112b801718396be5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:14 +0000
Subject: [PATCH 11/36] fix: circular and moved includes give each document one
 place in the tree

---
 src/disseminate/document/document.py | 104 ++++++++++++++++-----------
 1 file changed, 62 insertions(+), 42 deletions(-)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index a7efe78..e693ff5 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -57,6 +57,10 @@ class Document(object):
     context = None
     subdocuments = None
 
+    #: The documents available and the paths of the documents already placed, while
+    #: the document tree is loaded. (root document only)
+    _loading = None
+
     #: The path of a temporary directory created for this document, if needed.
     _temp_dir = None
 
@@ -448,61 +452,77 @@ class Document(object):
         """
         document_loaded = False
 
-        # Get the root document's src_filepath and the src_filepath for all of
-        # its included subdocuments to make sure we do not load documents
-        # recursively or twice
+        # Get the root document
         root_document = self.context.get('root_document', None)
         root_document = root_document() if root_document is not None else None
 
         # Get the build environment for the project
         environment = self.context['environment']
 
-        # Get a dict with all documents in a project
-        root_dict = root_document.documents_dict(document=root_document,
-                                                 only_subdocuments=False,
-                                                 recursive=True)
-
-        # Get a dict with all documents owned by this document. This document
-        # can control those documents, but it cannot control other documents in
-        # the root_dict. This avoids recursion.
-        subs_dict = self.documents_dict(only_subdocuments=False,
-                                        recursive=True)
+        # The document tree is loaded depth-first, starting with the document
+        # whose sub-documents are loaded first.
+        loading_first = root_document._loading is None
+
+        if loading_first:
+            # Get a dict with all documents in a project
+            root_dict = root_document.documents_dict(document=root_document,
+                                                     only_subdocuments=False,
+                                                     recursive=True)
+
+            # Get a dict with all documents owned by this document. This
+            # document can control those documents, but it cannot control other
+            # documents in the root_dict.
+            subs_dict = self.documents_dict(only_subdocuments=False,
+                                            recursive=True)
+
+            # Keep track of the src_filepaths of the documents that are already
+            # placed in the tree to make sure we do not load documents
+            # recursively or twice
+            placed = {src_filepath for src_filepath in root_dict
+                      if src_filepath not in subs_dict}
+            placed.add(self.src_filepath)
+            root_document._loading = (subs_dict, placed)
 
         # Clear the subdocuments ordered dict and add new entries. Old entries
         # will automatically be deleted if the subdocument no longer holds a
         # reference to it.
         self.subdocuments.clear()
 
-        # Retrieve the file paths of included files in the context
-        src_filepaths = self.context.includes
-
-        for src_filepath in src_filepaths:
-            # If the src_filepath is the same as this document, do nothing, as
-            # a document shouldn't have itself as a subdocument
-            if src_filepath == self.src_filepath:
-                continue
-
-            # If the document is already loaded and controlled by this
-            # document, copy it to the subdocuments ordered dict
-            elif src_filepath in subs_dict:
-                subdoc = subs_dict[src_filepath]
-                document_loaded |= subdoc.load(level=level + 1)
-
-                if self.src_filepath not in subdoc.subdocuments:
-                    self.subdocuments[src_filepath] = subdoc
-
-            # The document could not be found, at this point. Create it--as
-            # long as it's not controlled by another document--i.e. it's not
-            # already loaded in root_dict
-            elif src_filepath not in root_dict:
-                subdoc = Document(src_filepath=src_filepath,
-                                  environment=environment,
-                                  parent_context=self.context,
-                                  level=level + 1)
+        try:
+            subs_dict, placed = root_document._loading
+
+            # Go through the file paths of included files in the context
+            for src_filepath in self.context.includes:
+                # Do nothing if the document was already placed in the tree
+                if src_filepath in placed:
+                    continue
+                placed.add(src_filepath)
+
+                # If the document is already loaded, use it.
+                if src_filepath in subs_dict:
+                    subdoc = subs_dict[src_filepath]
+
+                    # Reload the document, and its sub-documents, if it has a
+                    # new parent document
+                    if subdoc.context.parent_context is not self.context:
+                        subdoc.context.parent_context = self.context
+                        for doc in subdoc.documents_list(recursive=True):
+                            doc._succesfully_loaded = False
+
+                    document_loaded |= subdoc.load(level=level + 1)
+
+                # The document could not be found, at this point. Create it
+                else:
+                    subdoc = Document(src_filepath=src_filepath,
+                                      environment=environment,
+                                      parent_context=self.context,
+                                      level=level + 1)
+                    document_loaded |= True
+
                 self.subdocuments[src_filepath] = subdoc
-                document_loaded |= True
-            else:
-                continue
+        finally:
+            if loading_first:
+                root_document._loading = None
 
         # Update the subdocuments mtimes to this document's mtime. The
         # sub-document's mtime must updated so that a load_required is not
-- 
2.43.0


From 043d4fec43abd81160d22761e50d262ea16b31b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:14 +0000
Subject: [PATCH 12/36] fix: includes that name a file with different relative
 paths are the same document

---
 src/disseminate/document/document_context.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/document/document_context.py b/src/disseminate/document/document_context.py
index bcc4cab..5912762 100644
--- a/src/disseminate/document/document_context.py
+++ b/src/disseminate/document/document_context.py
@@ -3,6 +3,7 @@ The document context
 """
 import weakref
 from copy import deepcopy
+from os.path import normpath
 
 from .exceptions import TargetNotFound
 from ..context import BaseContext
@@ -330,12 +331,13 @@ class DocumentContext(BaseContext):
         includes = [path.strip() for path in includes.split('\n')
                     if not path.isspace() and path != '']
 
-        # Reconstruct the paths relative to the context's src_filepath.
+        # Reconstruct the paths relative to the context's src_filepath. These are
+        # normalized (ex: 'sub/../file.dm' is 'file.dm') to identify files.
         src_filepath = self['src_filepath']
         subpath = src_filepath.subpath.parent
         project_root = src_filepath.project_root
 
         includes = [SourcePath(project_root=project_root,
-                               subpath=subpath / path)
+                               subpath=normpath(str(subpath / path)))
                     for path in includes]
         return includes
-- 
2.43.0


From 2c00500bf5a33dbbdf7eca9bddc3b2fa23a5ee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:21 +0000
Subject: [PATCH 13/36] fix: pdf fingerprints see moved line breaks

---
 src/disseminate/builders/deciders/utils_hash.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/builders/deciders/utils_hash.py b/src/disseminate/builders/deciders/utils_hash.py
index c3e35e8..f1640b3 100644
--- a/src/disseminate/builders/deciders/utils_hash.py
+++ b/src/disseminate/builders/deciders/utils_hash.py
@@ -91,8 +91,7 @@ def line_splitter(file, newline, chunk_size, tail=None):
     while True:
         chunk = file.read(chunk_size)
         if not chunk:
-            if tail:
-                yield tail
+            yield tail
             break
         lines = (tail + chunk).split(newline)
         tail = lines.pop(0)
@@ -136,6 +135,6 @@ def hash_pdf(filepath, chunk_size, hashfunc,
                                   tail=b''):
             if any(line.startswith(starter) for starter in startswith):
                 continue
-            hashobj.update(line)
+            hashobj.update(line + b'\n')
 
     return hashobj.digest()
-- 
2.43.0


From 742a29fdf498f6ebd8849d8649fa35067f453662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:21 +0000
Subject: [PATCH 14/36] fix: a finished run of a builder is not reused when
 inputs or outputs change later

---
 src/disseminate/builders/builder.py             | 10 +++++++---
 src/disseminate/builders/deciders/md5decider.py |  7 ++++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 9477a7f..31647fe 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -232,12 +232,12 @@ class Builder(metaclass=ABCMeta):
         if self.missing_parameters:
             return "missing (parameters)"
 
-        # If a build is not needed or the process is done, then the build is
+        # If a process isn't open and a build is not needed, then the build is
         # done
-        if not self.build_needed():
+        if self.future is None and not self.build_needed():
             return "done"
 
-        # If a process is open (self.open is not None), then a build is
+        # If a process is open (self.future is not None), then a build is
         # currently in process
         if self.future is not None:
             if not self.future.done():
@@ -266,6 +266,10 @@ class Builder(metaclass=ABCMeta):
                 # It was a successful run and the generated file exists
                 else:
                     self.build_needed(reset=True)
+
+                    # This run is finished. A new run is needed if the inputs
+                    # or the output are changed later.
+                    self.future = None
                     return "done"
 
             # non-zero exit code. Unsuccessful. :(
diff --git a/src/disseminate/builders/deciders/md5decider.py b/src/disseminate/builders/deciders/md5decider.py
index efca2ad..dad70a9 100644
--- a/src/disseminate/builders/deciders/md5decider.py
+++ b/src/disseminate/builders/deciders/md5decider.py
@@ -10,6 +10,9 @@ from .utils_hash import hash_items
 class Md5Decision(Decision):
     """A decision for the Md5Decider"""
 
+    # The input and output hashes of the last completed build for this decision
+    completed = None
+
     def build_needed(self, inputs, output, reset=False):
         build_needed = super().build_needed(inputs, output)
 
@@ -37,9 +40,11 @@ class Md5Decision(Decision):
             input_hash, output_hash = self.calculate_hash(inputs=inputs,
                                                           output=output)
             db[input_hash] = output_hash
+            self.completed = (input_hash, output_hash)
             return False
         else:
-            return cached_output_hash != output_hash
+            return (cached_output_hash != output_hash and
+                    self.completed != (input_hash, output_hash))
 
     @staticmethod
     def calculate_hash(inputs, output):
-- 
2.43.0


From a4045bba1ca5e429e5c1249649a0e3d58aedfa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:40 +0000
Subject: [PATCH 15/36] fix: flatten lists the sub-builders of the given
 builder

---
 .../builders/composite_builders/composite_builder.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/builders/composite_builders/composite_builder.py b/src/disseminate/builders/composite_builders/composite_builder.py
index 9863552..564a50d 100644
--- a/src/disseminate/builders/composite_builders/composite_builder.py
+++ b/src/disseminate/builders/composite_builders/composite_builder.py
@@ -130,7 +130,7 @@ class CompositeBuilder(Builder):
         flattened_list = [builder]  # add the given tag to the list
 
         # Traverse the items and process each
-        for subbuilder in self.subbuilders:
+        for subbuilder in getattr(builder, 'subbuilders', []):
             # Add the item to the list
             if isinstance(subbuilder, CompositeBuilder):
                 flattened_list += subbuilder.flatten(builder=subbuilder)
-- 
2.43.0


From bbe7f939d5384e785573d6f6898549356f00c459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:03 +0000
Subject: [PATCH 16/36] fix: previous and next links are set for the targets of
 every document

---
 src/disseminate/tags/navigation.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/disseminate/tags/navigation.py b/src/disseminate/tags/navigation.py
index ea59049..c5d54f1 100644
--- a/src/disseminate/tags/navigation.py
+++ b/src/disseminate/tags/navigation.py
@@ -42,11 +42,7 @@ def set_navigation_labels(root_document):
 
     # Set the prev_labels and next_labels entries in the context of each
     # document
-    for target in targets:
-        if target not in doc_ids_by_target:
-            continue
-        doc_ids = doc_ids_by_target[target]
-
+    for target, doc_ids in doc_ids_by_target.items():
         for document in documents:
             doc_id = document.doc_id
 
@@ -113,7 +109,7 @@ class Next(Ref):
             cache['label'] = label()  # Dereference. See above.
 
         if 'label' in cache:
-            return super(Next, self).html_fmt(cache=cache, **kwargs)
+            return super(Next, self).tex_fmt(cache=cache, **kwargs)
         else:
             return ""
 
@@ -169,7 +165,7 @@ class Prev(Ref):
             cache['label'] = label()  # Dereference. See above.
 
         if 'label' in cache:
-            return super(Prev, self).html_fmt(cache=cache, **kwargs)
+            return super(Prev, self).tex_fmt(cache=cache, **kwargs)
         else:
             return ""
 
-- 
2.43.0


From 31f37948bf25abd2e0f533f03822c0bb96711ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:03 +0000
Subject: [PATCH 17/36] fix: references are rendered as text

---
 src/disseminate/tags/ref.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index c8ec6ec..00eb221 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -224,8 +224,9 @@ class Ref(Tag):
 
         if all(i is not None for i in (label_manager, label, context)):
             # Format the format string keys for a ref
-            keys = ('ref', *label.kinds)
-            format_str = label_manager.format_string(id=self.label.id, *keys)
+            keys = ('ref', *label.kind)
+            format_str = label_manager.format_string(label.id, *keys,
+                                                     target='.txt')
 
             processed_tag = Tag(name='ref', content=format_str, attributes='',
                                 context=context)
-- 
2.43.0


From 527562c8795a0aa4a85e72f68d2ec8022540b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:38 +0000
Subject: [PATCH 18/36] fix: references to documents without the target are not
 links

---
 src/disseminate/tags/ref.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 00eb221..6633722 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -4,6 +4,7 @@ The Ref tag to reference captions and other labels.
 from .tag import Tag
 from .exceptions import assert_content_str
 from .utils import content_to_str, format_content
+from ..document.exceptions import TargetNotFound
 from ..label_manager.types import DocumentLabel
 from ..signals import signal
 from ..formats import xhtml_tag, tex_cmd
@@ -156,9 +157,9 @@ class Ref(Tag):
 
         Returns
         -------
-        url_path : str
+        url_path : Union[str, None]
             The url path for the document owning the label referenced by this
-            tag.
+            tag, or None if the document isn't rendered for the target.
         """
         context = self.context
         cache = dict() if cache is None else cache
@@ -184,13 +185,15 @@ class Ref(Tag):
         # In this case, the label and tag documents are different. Return a
         # link to the label's document.
         document = self.document(cache=cache)
-        target_filepath = document.target_filepath(target)
 
-        if target_filepath is None:
+        try:
+            target_filepath = document.target_filepath(target)
+            link = target_filepath.get_url(context=self.context)
+        except TargetNotFound:
+            # One of the documents isn't rendered for the target, so there is
+            # no file to link
             return None
 
-        link = target_filepath.get_url(context=self.context)
-
         return link + '#' + label.id if include_anchor else link
 
     def default_fmt(self, content=None, attributes=None, cache=None, **kwargs):
@@ -363,11 +366,14 @@ class Ref(Tag):
             # for a DocumentLabel. DocumentLabels should just point to the
             # file itself.
             include_anchor = not isinstance(label, DocumentLabel)
-            attrs['href'] = self.url(target=method, cache=cache,
-                                     include_anchor=include_anchor)
+            url = self.url(target=method, cache=cache,
+                           include_anchor=include_anchor)
+            if url is not None:
+                attrs['href'] = url
 
             # wrap content in 'a' tag
-            return xhtml_tag('a', attributes=attrs, formatted_content=content,
+            return xhtml_tag('a' if url is not None else 'span',
+                             attributes=attrs, formatted_content=content,
                              level=level, method=method,
                              pretty_print=False)  # no line breaks
         else:
-- 
2.43.0


From efbdc1b4b2f109ef88f44488a00eeee4e2cecb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:01 +0000
Subject: [PATCH 19/36] fix: renaming a path without an extension does not add
 a dot

---
 src/disseminate/paths/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/paths/utils.py b/src/disseminate/paths/utils.py
index b0dfa96..97d974d 100644
--- a/src/disseminate/paths/utils.py
+++ b/src/disseminate/paths/utils.py
@@ -54,7 +54,8 @@ def rename(path, filename=None, append=None, extension=None):
 
     # Get the extension and workup as necessary
     extension = path.suffix if extension is None else extension
-    extension = '.' + extension if not extension.startswith('.') else extension
+    if extension and not extension.startswith('.'):
+        extension = '.' + extension
 
     # Return the renamed path
     return parent / (filename + extension)
-- 
2.43.0


From 95a26528001b40acf635735f076316885e4b108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:56 +0000
Subject: [PATCH 20/36] fix: contents of verbatim tags are not parsed when they
 are placed in paragraphs

---
 src/disseminate/tags/receivers/content.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/tags/receivers/content.py b/src/disseminate/tags/receivers/content.py
index c094aa2..146ce17 100644
--- a/src/disseminate/tags/receivers/content.py
+++ b/src/disseminate/tags/receivers/content.py
@@ -68,7 +68,10 @@ def parse_tags(content, context, tag_factory, level=1):
     elif isinstance(content, list):
         return list(map(parse, content))
     elif hasattr(content, 'content'):
-        if isinstance(content.content, list):
+        if not getattr(content, 'process_content', True):
+            # The contents of this tag are not parsed. ex: verbatim tags
+            pass
+        elif isinstance(content.content, list):
             content.content = list(map(parse, content.content))
         else:
             content.content = parse(content.content)
-- 
2.43.0


From 520013f24de618a32b364ba70c290404c461856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:56 +0000
Subject: [PATCH 21/36] fix: headings without a label keep their text in tex

---
 src/disseminate/tags/headings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/tags/headings.py b/src/disseminate/tags/headings.py
index 389e456..ee1e237 100644
--- a/src/disseminate/tags/headings.py
+++ b/src/disseminate/tags/headings.py
@@ -87,6 +87,9 @@ class Heading(Tag, LabelMixin):
         if self.label_tag is not None:
             content += self.label_tag.tex_fmt(mathmode=mathmode,
                                               level=level + 1)
+        else:
+            content += content_to_str(self.content, target='.tex',
+                                      mathmode=mathmode, level=level + 1)
 
         # Format the heading tag. ex: \chapter{Chapter 1. My First Chapter}
         content = tex_cmd(cls_name, attributes=attributes,
-- 
2.43.0


From 030e7eac87920bfddfa5050b67051169f0bb027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:56 +0000
Subject: [PATCH 22/36] fix: figures keep their class attribute in html

---
 src/disseminate/tags/figs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/tags/figs.py b/src/disseminate/tags/figs.py
index edd859a..1f0b465 100644
--- a/src/disseminate/tags/figs.py
+++ b/src/disseminate/tags/figs.py
@@ -51,7 +51,7 @@ class BaseFigure(Tag):
         # Set the html class
         if self.html_class is not None:
             if 'class' in attrs:
-                attrs['class'] = ' ' + self.html_class
+                attrs['class'] += ' ' + self.html_class
             else:
                 attrs['class'] = self.html_class
         return super().html_fmt(attributes=attrs, method=method, **kwargs)
-- 
2.43.0


From 089d40e8c6b8bc6349985a90c17af19718628716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:56 +0000
Subject: [PATCH 23/36] fix: html_tag renders the tag

---
 src/disseminate/formats/xhtml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/formats/xhtml.py b/src/disseminate/formats/xhtml.py
index e1582cc..2cde624 100644
--- a/src/disseminate/formats/xhtml.py
+++ b/src/disseminate/formats/xhtml.py
@@ -19,7 +19,7 @@ class XHtmlFormatError(FormattingError):
 
 
 def html_tag(*args, **kwargs):
-    return html_tag(*args, **kwargs, method='html')
+    return xhtml_tag(*args, **kwargs, method='html')
 
 
 def xml_tag(*args, **kwargs):
-- 
2.43.0


From 756ac18ad7af5ba3e65ff7d6939820d2f4f99d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:56 +0000
Subject: [PATCH 24/36] fix: a default of two items is returned unchanged by
 attribute lookup

---
 src/disseminate/attributes/attributes.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/disseminate/attributes/attributes.py b/src/disseminate/attributes/attributes.py
index 5881a64..7450198 100644
--- a/src/disseminate/attributes/attributes.py
+++ b/src/disseminate/attributes/attributes.py
@@ -319,13 +319,11 @@ class Attributes(dict):
         <class ...StringPositionalValue'>
         >>> attrs.get('missing')
         """
-        rv = self.find_item(attr=attr, target=target, default=default,
-                            sep=sep)
-        if isinstance(rv, tuple) and len(rv) == 2:
-            key, value = rv
-            return strip_attr(key, sep=sep) if ispositional(attr) else value
-        else:
-            return rv
+        rv = self.find_item(attr=attr, target=target, sep=sep)
+        if rv is None:
+            return default
+        key, value = rv
+        return strip_attr(key, sep=sep) if ispositional(attr) else value
 
     def append(self, attr, value=_MissingAttribute):
         """Set a value by appending to it, if it already exists, or creating
-- 
2.43.0


From 993f66d641d9ecec40b55b5db7b61af70e136387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:44 +0000
Subject: [PATCH 25/36] fix: positional attribute lookup does not use entries
 written for another target

---
 src/disseminate/attributes/attributes.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/disseminate/attributes/attributes.py b/src/disseminate/attributes/attributes.py
index 7450198..8608d82 100644
--- a/src/disseminate/attributes/attributes.py
+++ b/src/disseminate/attributes/attributes.py
@@ -267,8 +267,6 @@ class Attributes(dict):
                 return target_items[0]
             elif general_items:
                 return general_items[0]
-            elif items:
-                return items[0]
 
         # Give up
         return default
-- 
2.43.0


From bafa726488888c5e235fd713284e5bbb60555a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:59 +0000
Subject: [PATCH 26/36] fix: positional attributes named like an html attribute
 are not written as a value

---
 src/disseminate/formats/xhtml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/formats/xhtml.py b/src/disseminate/formats/xhtml.py
index 2cde624..5606b7f 100644
--- a/src/disseminate/formats/xhtml.py
+++ b/src/disseminate/formats/xhtml.py
@@ -10,6 +10,7 @@ from markupsafe import Markup
 
 from .exceptions import FormattingError
 from ..attributes import Attributes
+from ..utils.types import ispositional
 from .. import settings
 
 
@@ -160,7 +161,7 @@ def xhtml_tag(name, attributes=None, formatted_content=None, level=1,
     # Add the reqs and opts attributes
     for attrs in (i for i in (reqs, opts, other) if i is not None):
         for k, v in attrs.items():
-            if v is None:
+            if v is None or ispositional(v):
                 continue
             e.set(k, v)
 
-- 
2.43.0


From 2c3498ff4882e4f36a5f4530584ea48e59e783de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:31 +0000
Subject: [PATCH 27/36] fix: html tags use the attributes written for the html
 target

---
 src/disseminate/formats/xhtml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/formats/xhtml.py b/src/disseminate/formats/xhtml.py
index 5606b7f..f9936fc 100644
--- a/src/disseminate/formats/xhtml.py
+++ b/src/disseminate/formats/xhtml.py
@@ -70,6 +70,9 @@ def xhtml_tag(name, attributes=None, formatted_content=None, level=1,
     >>> xhtml_tag('img', attributes="src='test.svg'", method='xml')
     Markup('<img src="test.svg"/>\n')
     """
+    # By default, the attributes are those for the target that is rendered
+    target = method if target is None else target
+
     method = 'xml' if method == 'xhtml' else method
 
     # See if the tag is permitted
-- 
2.43.0


From 83a43e78f9d41f34c0aa23e04877b9a75464f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:54 +0000
Subject: [PATCH 28/36] fix: spaces of blank lines before a list item do not
 change its level

---
 src/disseminate/tags/list.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/list.py b/src/disseminate/tags/list.py
index 4838b9c..e695016 100644
--- a/src/disseminate/tags/list.py
+++ b/src/disseminate/tags/list.py
@@ -18,6 +18,12 @@ re_list = regex.compile(r'^\s*[\*\-]', regex.MULTILINE)
 re_multiline_items = regex.compile(r'\s*\n+\s+')
 
 
+def bullet_level(match):
+    """The level of a list item, which is the number of spaces before the
+    bullet on its line. (The match may include preceding blank lines.)"""
+    return match.group().splitlines()[-1].count(' ')
+
+
 def parse_string_list(s):
     r"""Parse a string with lists.
 
@@ -49,7 +55,7 @@ def parse_string_list(s):
             current_pos = match.end()
 
             # Find the level. The number of spaces determines the level
-            list_level = match.group().count(' ')
+            list_level = bullet_level(match)
             continue
 
         # Retrieve the string up to this point. Remove leading spaces.
@@ -62,7 +68,7 @@ def parse_string_list(s):
         # Set the current position and current match for the next iteration
         current_match = match
         current_pos = match.end()
-        list_level = match.group().count(' ')
+        list_level = bullet_level(match)
 
     # Add the remaining match to the returned list
     if current_match is not None:
-- 
2.43.0


From d3a273662a24805054d9b93d21053723bd703f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:54 +0000
Subject: [PATCH 29/36] fix: list items are not nested in items with a higher
 level

---
 src/disseminate/formats/xhtml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/formats/xhtml.py b/src/disseminate/formats/xhtml.py
index f9936fc..70b4e1e 100644
--- a/src/disseminate/formats/xhtml.py
+++ b/src/disseminate/formats/xhtml.py
@@ -278,8 +278,9 @@ def xhtml_list(*elements, attributes=None, listtype='ol', level=1,
     # encountered, all sub items will receive the same number so that they're
     # grouped together.
     def counter(item):
-        nonlocal _count
-        if item[0] == listlevel:
+        nonlocal _count, listlevel
+        if item[0] <= listlevel:
+            listlevel = item[0]
             _count += 1
         return _count
 
-- 
2.43.0


From 3596117c5e3ed424bbb1a949d8f983e47f491484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:54 +0000
Subject: [PATCH 30/36] fix: flattening a tag includes the tags in nested lists

---
 src/disseminate/tags/tag.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/disseminate/tags/tag.py b/src/disseminate/tags/tag.py
index e97eab0..f58434e 100644
--- a/src/disseminate/tags/tag.py
+++ b/src/disseminate/tags/tag.py
@@ -191,6 +191,12 @@ class Tag(object):
 
         # Traverse the items and process each
         for item in tag:
+            # Process nested lists
+            if isinstance(item, list):
+                flattened_list += self.flatten(tag=item,
+                                               filter_tags=filter_tags)
+                continue
+
             # Add the item to the ast
             flattened_list.append(item)
 
-- 
2.43.0


From d234956122b392cdc60093732a21bcf7be9e1604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:54 +0000
Subject: [PATCH 31/36] fix: copies of image and equation tags do not share
 rendered files with the original

---
 src/disseminate/tags/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disseminate/tags/utils.py b/src/disseminate/tags/utils.py
index e742e5a..f53484a 100644
--- a/src/disseminate/tags/utils.py
+++ b/src/disseminate/tags/utils.py
@@ -140,6 +140,11 @@ def copy_tag(tag):
             value = getattr(tag, field)
             setattr(tag_copy, field, value.copy())
 
+    # The files and contexts rendered for the tag are not those of its copy
+    for field in ('_outfilepaths', '_target_context'):
+        if hasattr(tag, field):
+            setattr(tag_copy, field, dict())
+
     # Copy its content
     tag_copy.content = copy_tag(tag_copy.content)
 
-- 
2.43.0


From 825917b74c7d96ab57801836b2325e4ccbfcab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:19 +0000
Subject: [PATCH 32/36] fix: package versions followed by a suffix are decoded

---
 src/disseminate/checkers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/checkers/utils.py b/src/disseminate/checkers/utils.py
index d8744a1..04b3b3a 100644
--- a/src/disseminate/checkers/utils.py
+++ b/src/disseminate/checkers/utils.py
@@ -60,6 +60,6 @@ def name_and_version(string):
 
     # Convert the version to a tuple of integers
     if version is not None:
-        version = tuple(map(int, version.split('.')))
+        version = tuple(int(i) for i in version.split('.') if i)
 
     return name, op, version
-- 
2.43.0


From 02da217b400fbc345be7b0557e38768e066a2158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:19 +0000
Subject: [PATCH 33/36] fix: python package checks do not use packages whose
 name only starts with the required one

---
 src/disseminate/checkers/python.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/checkers/python.py b/src/disseminate/checkers/python.py
index fa8b461..b5628be 100644
--- a/src/disseminate/checkers/python.py
+++ b/src/disseminate/checkers/python.py
@@ -76,7 +76,8 @@ class PythonChecker(Checker):
             name = name.lower()
 
             # See if the package name is available in the freeze tuple
-            matching_packages = [i for i in self.freeze if i.startswith(name)]
+            matching_packages = [i for i in self.freeze
+                                 if i.split('==')[0] == name]
 
             # If there are no matching packages, return None and do nothing
             # more
-- 
2.43.0


From 5e2bb67ca7a98fa8cccadcfe8bf497aef651b6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:43 +0000
Subject: [PATCH 34/36] fix: versions with a different number of components are
 compared by component

---
 src/disseminate/checkers/python.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/checkers/python.py b/src/disseminate/checkers/python.py
index b5628be..3da15f5 100644
--- a/src/disseminate/checkers/python.py
+++ b/src/disseminate/checkers/python.py
@@ -101,9 +101,16 @@ class PythonChecker(Checker):
                 # In this case, we don't care about the version--just that it's
                 # installed. It is, so mark it as installed
                 packages.available = True
-            elif installed_ver is not None and op(installed_ver, ver):
-                # Otherwise check the version number
-                packages.available = True
+            elif installed_ver is not None and op is not None:
+                # Otherwise check the version number. Missing components are
+                # zero. ex: 2.11 and 2.11.0 are the same version
+                ver = ver or ()
+                size = max(len(installed_ver), len(ver))
+                installed_ver += (0,) * (size - len(installed_ver))
+                ver += (0,) * (size - len(ver))
+
+                if op(installed_ver, ver):
+                    packages.available = True
 
         elif isinstance(packages, SoftwareDependencyList):
             # If the packages is a SoftwareDependencyList, process each package
-- 
2.43.0


From f6f7c66c83c7b26085175354d97e9286a8b30d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:43 +0000
Subject: [PATCH 35/36] fix: groups of dependencies nested deeply are listed

---
 src/disseminate/checkers/types.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/disseminate/checkers/types.py b/src/disseminate/checkers/types.py
index 011dea2..16ffd6b 100644
--- a/src/disseminate/checkers/types.py
+++ b/src/disseminate/checkers/types.py
@@ -99,9 +99,6 @@ class SoftwareDependencyList(object):
             A flattened list of tuples with the level (int) and software
             dependencies or software dependency lists.
         """
-        # Recursion check
-        if level > 16:
-            return None
         flattened_list = []
 
         # Use this list's dependencies list, if not items are specified
-- 
2.43.0


From 0aee00ec2ec142a7767cfbbfcce2a1a028043819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:59 +0000
Subject: [PATCH 36/36] fix: filtered attributes are stripped with the given
 separator

---
 src/disseminate/attributes/attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/attributes/attributes.py b/src/disseminate/attributes/attributes.py
index 8608d82..9743215 100644
--- a/src/disseminate/attributes/attributes.py
+++ b/src/disseminate/attributes/attributes.py
@@ -489,7 +489,7 @@ class Attributes(dict):
 
         # Strip target-specific terminators, if strip is enabled
         if strip:
-            d.strip()
+            d.strip(sep=sep)
         return d
 
     @property
-- 
2.43.0

