From efb42dd61d6bf442ed1c67770c749b3727248ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:30 +0000
Subject: [PATCH 01/99] fix: escape the field when a path operation starts from
 an empty path

Appending or prepending a field such as 'a.b' to an empty path returned it
unescaped, so the path of an error addressed two fields instead of one.
---
 marsh/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/path.py b/marsh/path.py
index e69d458..1317f94 100644
--- a/marsh/path.py
+++ b/marsh/path.py
@@ -144,7 +144,7 @@ def prepend(
         The prepended path.
     """
     if not path:
-        return field
+        return escape_field(field, delimiter=delimiter)
     if not field:
         return path
     return delimiter.join(
@@ -171,7 +171,7 @@ def append(
         The appended path.
     """
     if not path:
-        return field
+        return escape_field(field, delimiter=delimiter)
     if not field:
         return path
     return delimiter.join(
-- 
2.43.0


From de19255d0c7adb4c4b9382019afef23282673edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:55 +0000
Subject: [PATCH 02/99] fix: combine with the existing value at every path

The combine flag was dropped when descending into the path, so a.b+=[1]
replaced the existing value instead of being combined with it.
---
 marsh/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/element.py b/marsh/element.py
index c66f366..56ca2e0 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -245,6 +245,7 @@ def override(
                 element=element.get(field, {}),
                 value=value,
                 path=remaining_path,
+                combine=combine,
             )
     elif marsh.utils.is_sequence(element):
         try:
@@ -266,6 +267,7 @@ def override(
                 element=element[index],
                 value=value,
                 path=remaining_path,
+                combine=combine,
             )
         element = tuple(element)
     else:
-- 
2.43.0


From d9a923e359ab5be97e6bd00e6afe63f3e9d40173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 03/99] fix: treat a path of only delimiters as the root of an
 element

The documentation says that '.' is the same as the empty path, but override
created a value with the empty string as key and select/remove failed.
---
 marsh/element.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/marsh/element.py b/marsh/element.py
index 56ca2e0..2a1132a 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -73,9 +73,9 @@ def iterative_select(
         path='',
         remaining_path=path,
     )
-    if not path:
-        return
     field, remaining_path = marsh.path.head(path)
+    if not field:
+        return
     if marsh.utils.is_mapping(element):
         if field not in element:
             raise marsh.errors.PathError(field)
@@ -219,7 +219,8 @@ def override(
     Returns:
         A copy of the element with a new value set for the specified path.
     """
-    if not path:
+    field, remaining_path = marsh.path.head(path)
+    if not field:
         if combine:
             if (
                 marsh.utils.is_mapping(element)
@@ -235,7 +236,6 @@ def override(
             ):
                 return tuple(element) + tuple(value)
         return value
-    field, remaining_path = marsh.path.head(path)
     if marsh.utils.is_missing(element):
         element = {}
     if marsh.utils.is_mapping(element):
@@ -293,9 +293,9 @@ def remove(
     Returns:
         A copy of the element with the value for the specified path removed.
     """
-    if not path:
-        raise ValueError('no path specified')
     field, remaining_path = marsh.path.head(path)
+    if not field:
+        raise ValueError('no path specified')
     if marsh.utils.is_mapping(element):
         if field not in element:
             raise marsh.errors.PathError(field)
-- 
2.43.0


From 137e47f02432c9cc352a57374430722d947b6658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:49 +0000
Subject: [PATCH 04/99] fix: escape the field in the path of a failed removal

The error path of a removal that stops at a terminal value did not escape
the field, so a key such as 'a.b' was reported as two fields.
---
 marsh/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/element.py b/marsh/element.py
index 2a1132a..f278668 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -311,7 +311,7 @@ def remove(
                 raise marsh.errors.PathError(
                     'terminal element encountered, can '
                     f'not traverse the remaining path: "{remaining_path}"',
-                    path=field,
+                    path=marsh.path.escape_field(field),
                 )
             with marsh.errors.prepend(field):
                 element[field] = remove(
@@ -342,7 +342,7 @@ def remove(
                 raise marsh.errors.PathError(
                     'terminal element encountered, can '
                     f'not traverse the remaining path: "{remaining_path}"',
-                    path=field,
+                    path=marsh.path.escape_field(field),
                 )
             with marsh.errors.prepend(field):
                 element[index] = remove(
-- 
2.43.0


From c80095c43fbccd69de5977b25f5a7e7337b9024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 05/99] fix: keep the order of keys when merging elements

The keys of a merged map came out in the order of a set of strings, which
changes between runs of the same program.
---
 marsh/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/element.py b/marsh/element.py
index f278668..7f0b35f 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -146,7 +146,7 @@ def _merge(
                 element_b.get(key, marsh.MISSING),
                 concatenate=concatenate,
             )
-            for key in set(element_a).union(element_b)
+            for key in {**dict.fromkeys(element_a), **dict.fromkeys(element_b)}
         }
     elif (
         concatenate
-- 
2.43.0


From 8d96ed973678556374ab6a5baf5fdbb2bb800c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 06/99] fix: parse integers exactly

Integers were parsed through float, so 9007199254740993 became
9007199254740992.
---
 marsh/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marsh/parse.py b/marsh/parse.py
index cf832f7..f93789b 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -414,6 +414,10 @@ def terminal(
         raise err
     if quoted or not value:
         return value
+    try:
+        return int(value)
+    except ValueError:
+        pass
     try:
         fl_value = float(value)
         if fl_value.is_integer():
-- 
2.43.0


From 483a2404a189356d2ef7e4a223b97c903862aa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 07/99] fix: report a missing closing quote as a parse error

Parsing an unclosed quoted string raised "ValueError: can not pop from
empty source" instead of the intended ParseError.
---
 marsh/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/parse.py b/marsh/parse.py
index f93789b..f9d64dc 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -355,7 +355,7 @@ def string(
         chars: List[str] = []
         if peek(source) in QUOTE_CHARACTERS:
             quote = pop(source)
-        while (char := peek(source)) not in terminal_chars or quote:
+        while source and ((char := peek(source)) not in terminal_chars or quote):
             if char == ESCAPE:
                 if len(source) < 2:
                     raise ParseError(
-- 
2.43.0


From 72ffc667226379c7253175866550908fb3b650f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 08/99] fix: allow whitespace before the closing bracket of a
 sequence

'["a" ]' and '[[1] ]' failed to parse while the same whitespace is accepted
in front of the closing brace of a mapping.
---
 marsh/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/parse.py b/marsh/parse.py
index f9d64dc..108168e 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -525,7 +525,7 @@ def sequence(
                     terminal_chars=',' + closing_char,
                 ),
             )
-        consume_whitespace(source)
+            consume_whitespace(source)
         if peek(source) != closing_char:
             raise ParseError(
                 f'expected `{closing_char}` as terminal character for sequence',
-- 
2.43.0


From dc090567df2386c5a045e845e1178f69d9785a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:21 +0000
Subject: [PATCH 09/99] fix: make ParseError a MarshError

A malformed override on the command line ended in a traceback as the entry
point only handles errors derived from MarshError.
---
 marsh/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/parse.py b/marsh/parse.py
index 108168e..f28adbc 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -41,7 +41,7 @@ class _ParseFunction(Protocol):
         ...
 
 
-class ParseError(Exception):
+class ParseError(marsh.errors.MarshError):
 
     def __init__(
         self,
-- 
2.43.0


From 2525596fcb0622a6951f714ad37ad3ca8a548285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 10/99] fix: report a config assignment without any config

'a@[]' raised a TypeError from the call to load the configs.
---
 marsh/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marsh/parse.py b/marsh/parse.py
index f28adbc..cb699f9 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -188,6 +188,10 @@ class SetConfig(Override):
         keep_meta: bool = False,
         **kwargs,
     ) -> marsh.element.ElementType:
+        if not self.names:
+            raise marsh.errors.ConfigFileError(
+                f'no config given for path: "{self.path}"',
+            )
         return marsh.element.override(
             element=element,
             path=self.path,
-- 
2.43.0


From 1db5281b6025d789291930a950aa4f144c745cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:29 +0000
Subject: [PATCH 11/99] fix: report the removal of the root as a path error

'~' and '~.' raised a bare ValueError which the entry point does not
handle.
---
 marsh/parse.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/marsh/parse.py b/marsh/parse.py
index cb699f9..5436207 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -213,9 +213,12 @@ class DeleteValue(Override):
         element: marsh.element.ElementType,
         **kwargs,
     ) -> marsh.element.ElementType:
-        if not (
-            marsh.utils.is_mapping(element)
-            or marsh.utils.is_sequence(element)
+        if (
+            not marsh.path.head(self.path).head
+            or not (
+                marsh.utils.is_mapping(element)
+                or marsh.utils.is_sequence(element)
+            )
         ):
             raise marsh.errors.PathError(
                 'can not remove value for '
-- 
2.43.0


From 0d16cdc8d97ed922d19ac75254965f12c2dd3268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 12/99] fix: bind the arguments in front of variable positional
 arguments

For `def f(a, *args)` the variable arguments were filled before `a`, so
neither a sequence input nor positional defaults of a call could ever reach
`a`.
---
 marsh/schema/template/callable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 24911c9..8a3b46e 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -37,6 +37,7 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
         except Exception:
             annotations = {}
         positional = {}
+        positional_or_keyword = {}
         keyword = {}
         var_positional = None
         var_keyword = None
@@ -56,7 +57,7 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             if param.kind == param.POSITIONAL_ONLY:
                 positional[name] = schema
             elif param.kind == param.POSITIONAL_OR_KEYWORD:
-                keyword[name] = schema
+                positional_or_keyword[name] = schema
             elif param.kind == param.KEYWORD_ONLY:
                 keyword[name] = schema
             elif param.kind == param.VAR_POSITIONAL:
@@ -66,7 +67,10 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
         self.positional = tuple(positional)
         schemas = {}
         schemas.update(positional)
+        schemas.update(positional_or_keyword)
         if var_positional:
+            # any preceding arguments have to be passed by position
+            self.positional = tuple(schemas)
             name, schema = var_positional
             schemas[f'*{name}'] = schema
         schemas.update(keyword)
-- 
2.43.0


From 4ed10f9bfe523a7100a0f72d720386b935d76bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 13/99] fix: never pass keyword-only arguments by position

A sequence input, or positional defaults of a call, were assigned to
keyword-only arguments which raised a TypeError once the callable or
dataclass was called.
---
 marsh/schema/template/callable.py   | 1 +
 marsh/schema/template/structured.py | 7 +++++--
 marsh/schema/types/dataclass.py     | 4 ++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 8a3b46e..4b2ab10 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -77,4 +77,5 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
         if var_keyword:
             name, schema = var_keyword
             schemas[f'**{name}'] = schema
+        self.keyword = tuple(keyword)
         self.schemas = types.MappingProxyType(schemas)
diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 20294ef..e15923c 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -31,6 +31,9 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
     positional: Sequence[str] = ()
     """Names of attributes that can only be used as positional arguments."""
 
+    keyword: Sequence[str] = ()
+    """Names of attributes that can only be used as keyword arguments."""
+
     def __str__(
         self,
     ) -> str:
@@ -203,11 +206,11 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                     args.extend(default_args)
                     default_args = []
                 else:
-                    if element_list:
+                    if element_list and name not in self.keyword:
                         args.append(schema.unmarshal(element_list.pop(0)))
                         default_args and default_args.pop(0)
                     else:
-                        if default_args:
+                        if default_args and name not in self.keyword:
                             value = default_args.pop(0)
                             if name not in element_dict:
                                 kwargs[name] = value
diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 2666e2b..302423b 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -98,6 +98,7 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         except Exception:
             annotations = {}
         schemas = {}
+        keyword = []
 
         def resolve_type(
             type_: Any,
@@ -131,6 +132,8 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         ):
             if not field.init:
                 continue
+            if getattr(field, 'kw_only', False):
+                keyword.append(field.name)
             with marsh.errors.prepend(field.name):
                 type_ = resolve_type(field.type)
                 schemas[field.name] = marsh.schema.UnmarshalSchema(
@@ -146,6 +149,7 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
                         else field.default_factory
                     ),
                 )
+        self.keyword = tuple(keyword)
         self.schemas = types.MappingProxyType(schemas)
 
     @classmethod
-- 
2.43.0


From 30489a196b8eba4e89d87f2f51847a067d4d9473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 14/99] fix: accept keyword defaults succeeding variable
 positional defaults

Calling an entry point for `def f(a, *args, b)` with `(1, 2, 3, b=4)` was
refused as if `b` was given twice.
---
 marsh/schema/template/structured.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index e15923c..f46eca1 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -62,6 +62,8 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
     ) -> None:
         if args and kwargs:
             for i, name in enumerate(self.schemas):
+                if name.startswith('*') or name in self.keyword:
+                    break
                 if i < len(args) and name in kwargs:
                     raise TypeError(
                         'received the same argument twice '
-- 
2.43.0


From ba218e36d6bb2f1848d79a3c7671dc44c9d35933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:40 +0000
Subject: [PATCH 15/99] fix: drop the keyword default of an argument given by
 position

For `def f(a, **kwargs)` called as `f(a=1)` with the input `[2]` the replaced
default was passed on through the variable keyword arguments, so the call
failed with multiple values for `a`.
---
 marsh/schema/template/structured.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index f46eca1..8b832a9 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -211,6 +211,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                     if element_list and name not in self.keyword:
                         args.append(schema.unmarshal(element_list.pop(0)))
                         default_args and default_args.pop(0)
+                        default_kwargs.pop(name, None)
                     else:
                         if default_args and name not in self.keyword:
                             value = default_args.pop(0)
-- 
2.43.0


From b58f086c0e43ec6eb6d0d122537f68fb9e77059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 16/99] fix: keep the order of init-only variables of a
 dataclass

Init-only variables were placed after all other fields, so a sequence input
was bound to other arguments than the ones of the dataclass constructor.
---
 marsh/schema/types/dataclass.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 302423b..4b0bbcb 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -17,12 +17,14 @@ _T = TypeVar('_T')
 
 
 _FIELDS = getattr(dataclasses, '_FIELDS', '__dataclass_fields__')
-_INITVAR_SENTINEL = dataclasses._FIELD_INITVAR  # type: ignore
+_CLASSVAR_SENTINEL = dataclasses._FIELD_CLASSVAR  # type: ignore
 
 
-def get_init_var_fields(
+def get_fields(
     dataclass: Any,
 ) -> Tuple[dataclasses.Field, ...]:
+    """Get the fields of a dataclass, including any
+    :class:`dataclasses.InitVar`, in the order of its arguments."""
     return tuple(
         field
         for field
@@ -30,7 +32,7 @@ def get_init_var_fields(
             dataclass,
             _FIELDS,
         ).values()
-        if field._field_type is _INITVAR_SENTINEL
+        if field._field_type is not _CLASSVAR_SENTINEL
     )
 
 
@@ -126,10 +128,7 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
                 return resolve_type(type_.type)
             return type_
 
-        for field in (
-            dataclasses.fields(self.value)
-            + get_init_var_fields(self.value)
-        ):
+        for field in get_fields(self.value):
             if not field.init:
                 continue
             if getattr(field, 'kw_only', False):
-- 
2.43.0


From 6ca5648f8b8e8c916a1f335a561dbe1bcf326895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 17/99] fix: bind a sequence to the keys of a typed dict in one
 order

The items of a sequence were unmarshaled as the types of the required keys
followed by the optional keys but named in the order of the annotations. A
sequence that leaves out optional keys raised a TypeError.
---
 marsh/schema/types/typeddict.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 8685153..44c3f32 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -101,14 +101,10 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         *args,
         **kwargs,
     ) -> _T:
-        if args and not kwargs:
-            kwargs = {
-                key: value
-                for key, value
-                in zip(get_type_hints(self.value), args)
-            }
-            args = ()
-        mapping = dict(*args, **kwargs)
+        mapping = {
+            **dict(zip(self.schemas, args)),
+            **kwargs,
+        }
         for key, value in tuple(mapping.items()):
             if value is self._sentinel:
                 if key in self.optional_keys:
-- 
2.43.0


From 455c9cc8f3fc44cd2e314d74d192ee054b4b6f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 18/99] fix: report a fixed size tuple that lacks items as an
 unmarshal error

---
 marsh/schema/types/tuple.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/tuple.py b/marsh/schema/types/tuple.py
index 4172504..f0c985b 100644
--- a/marsh/schema/types/tuple.py
+++ b/marsh/schema/types/tuple.py
@@ -58,4 +58,9 @@ class TupleUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[tuple
         *args,
         **kwargs,
     ) -> tuple:
-        return tuple(args, **kwargs)
+        if kwargs:
+            raise marsh.errors.UnmarshalError(
+                f'expected a sequence of {len(self.schemas)} items',
+                type=self.value,
+            )
+        return tuple(args)
-- 
2.43.0


From 297e92b49984e4307abae2b964265d6508f2fb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 19/99] fix: report values and keys that are not strings as
 unmarshal errors

---
 marsh/schema/template/structured.py | 6 ++++++
 marsh/utils.py                      | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 8b832a9..c2c0171 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -200,6 +200,12 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                             kwargs[key] = value
                     for key in tuple(element_dict):
                         with marsh.errors.prepend(key):
+                            if not isinstance(key, str):
+                                raise marsh.errors.UnmarshalError(
+                                    'expected the key to be a string',
+                                    element=element,
+                                    type=self.value,
+                                )
                             kwargs[key] = schema.unmarshal(element_dict.pop(key))
                 elif name.startswith('*'):
                     for i in range(len(element_list)):
diff --git a/marsh/utils.py b/marsh/utils.py
index 8f0338a..72a14b8 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2353,8 +2353,8 @@ def get_closest(
         The closest candidate. :data:`None` if no candidate is close.
     """
     close = difflib.get_close_matches(
-        value,
-        candidates,
+        str(value),
+        map(str, candidates),
         n=1,
     )
     if close:
-- 
2.43.0


From 8c6f185733d781138ea9ef90ee0bee6d12189a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 20/99] fix: find configs without an extension in the working
 directory

---
 marsh/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index 93c492b..d83b550 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -184,7 +184,7 @@ def find_config(
                 f'could not find config {target} ',
             )
         return target
-    dpath = os.path.dirname(target)
+    dpath = os.path.dirname(target) or os.curdir
     if not os.path.isdir(dpath):
         raise marsh.errors.ConfigFileError(
             f'unable to browse directory "{dpath}" '
-- 
2.43.0


From 1ef255d26c2c01fe591f9a800c376c7da05651df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 21/99] fix: report malformed and unreadable config files as
 config file errors

---
 marsh/config.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index d83b550..fa1ec49 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -313,7 +313,14 @@ def load(
         if root and not name.startswith('/'):
             name = os.path.join(root, name)
         path = find_config(name)
-        configs.append(ConfigSchema(path).load())
+        try:
+            configs.append(ConfigSchema(path).load())
+        except marsh.errors.MarshError:
+            raise
+        except Exception as err:
+            raise marsh.errors.ConfigFileError(
+                f'could not load config {path}',
+            ) from err
     config = marsh.element.merge(*configs, concatenate=concatenate)
     if (
         resolve
-- 
2.43.0


From b20f9f9d2eb14309a9a8ca65da01c1000083688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 22/99] fix: write plain YAML to stdout

---
 marsh/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index fa1ec49..d368929 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -350,7 +350,7 @@ def write(
             If not specified, stdout is used.
     """
     if path == '-':
-        yaml.dump(config, sys.stdout)
+        yaml.safe_dump(config, sys.stdout)
     else:
         ConfigSchema(path).dump(config)
 
-- 
2.43.0


From 823e791f419bc38fae8818bf2a9fdfd89b5c1ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 23/99] fix: report failed interpolations as a failure to load
 the configuration

---
 marsh/entry_point.py | 18 +++++++++++++++---
 marsh/errors.py      |  9 +++++++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index 02ac22a..58c2fc0 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -16,6 +16,8 @@ from typing import (
     Sequence,
 )
 
+import omegaconf
+
 import marsh
 import marsh.doc
 import marsh.parse
@@ -306,12 +308,22 @@ class EntryPoint:
             )
 
         def handle_load_config_error(
-            error: marsh.errors.MarshError,
+            error: Exception,
         ) -> None:
-            print(f'failed to load configuration: {error.pretty(True)}')
+            if isinstance(error, marsh.errors.MarshError):
+                message = error.pretty(True)
+            else:
+                message = str(error)
+            print(f'failed to load configuration: {message}')
             sys.exit(1)
 
-        with marsh.errors.maybe_handle_error(handle_load_config_error):
+        with marsh.errors.maybe_handle_error(
+            handle_load_config_error,
+            (
+                marsh.errors.MarshError,
+                omegaconf.errors.OmegaConfBaseException,
+            ),
+        ):
             config = self.load_config(cmd_args)
 
         with self.maybe_change_cwd(cmd_args):
diff --git a/marsh/errors.py b/marsh/errors.py
index a0d24d4..8ea7b6e 100644
--- a/marsh/errors.py
+++ b/marsh/errors.py
@@ -7,8 +7,10 @@ from typing import (
     ClassVar,
     Final,
     Iterator,
+    Tuple,
     Type,
     TypeVar,
+    Union,
     overload,
 )
 
@@ -157,7 +159,7 @@ def maybe_handle_error(
 @overload
 def maybe_handle_error(
     callback: Callable[[_E], Any],
-    error: Type[_E],
+    error: Union[Type[_E], Tuple[Type[_E], ...]],
 ) -> contextlib.AbstractContextManager:
     ...
 
@@ -165,7 +167,10 @@ def maybe_handle_error(
 @contextlib.contextmanager
 def maybe_handle_error(
     callback: Callable[[Any], Any],
-    error: Type[BaseException] = MarshError,
+    error: Union[
+        Type[BaseException],
+        Tuple[Type[BaseException], ...],
+    ] = MarshError,
 ) -> Iterator[None]:
     """Context manager that invokes a callback when catching an error.
 
-- 
2.43.0


From c0a38c5cee9b8cbafc1fb11a616a107bcce11a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 24/99] fix: report an output directory that can not be created
 or entered

---
 marsh/entry_point.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index 58c2fc0..108ce34 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -228,9 +228,9 @@ class EntryPoint:
                 print(f'failed to create output directory {path}: {error}')
                 sys.exit(1)
 
-            with marsh.errors.maybe_handle_error(handle_create_dir_error):
+            with marsh.errors.maybe_handle_error(handle_create_dir_error, OSError):
                 os.makedirs(path, exist_ok=True)
-            os.chdir(path)
+                os.chdir(path)
         yield
         if prev_path is not None:
             os.chdir(prev_path)
-- 
2.43.0


From 7bc74f1dbc603315db91689480d5e297339c1100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 25/99] fix: restore the working directory when the application
 fails

---
 marsh/entry_point.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index 108ce34..fca1ede 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -231,9 +231,11 @@ class EntryPoint:
             with marsh.errors.maybe_handle_error(handle_create_dir_error, OSError):
                 os.makedirs(path, exist_ok=True)
                 os.chdir(path)
-        yield
-        if prev_path is not None:
-            os.chdir(prev_path)
+        try:
+            yield
+        finally:
+            if prev_path is not None:
+                os.chdir(prev_path)
 
     def maybe_print_help(
         self,
-- 
2.43.0


From 3de75ad199aa2a73ac026e680fb9143c90f85c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 26/99] fix: list the configs of all directories in a config
 tree

---
 marsh/config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marsh/config.py b/marsh/config.py
index d368929..8c66da1 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -246,14 +246,14 @@ def tree(
     Returns:
         A tree representation of all available configs in that directory.
     """
-    lines = [f'{os.path.basename(path)}']
+    lines = [f'{os.path.basename(os.path.normpath(path))}']
     subtrees: List[str] = []
     configs: List[str] = []
-    for name in os.listdir(path):
+    for name in sorted(os.listdir(path)):
         if os.path.isdir(os.path.join(path, name)):
             subtree = tree(os.path.join(path, name))
-            if subtree.count('\n') > 1:
-                subtrees.append(name)
+            if '\n' in subtree:
+                subtrees.append(subtree)
         else:
             if config_type_is_supported(name):
                 configs.append(name)
-- 
2.43.0


From e3f0fbc8c87a42de60fc4d6ba3a4ebea93ffd7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:35 +0000
Subject: [PATCH 27/99] fix: find configs of a type that is registered later

---
 marsh/config.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index 8c66da1..ca1f297 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -223,7 +223,6 @@ def find_config(
     raise marsh.errors.ConfigFileError(err_msg)
 
 
-@marsh.utils.cache(maxsize=32, safe=False)
 def config_type_is_supported(
     path: str,
 ) -> bool:
-- 
2.43.0


From 6c7d5385b75945724f56d9da5273264bf34e59f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 28/99] fix: compare the keys of a value cache by value

---
 marsh/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marsh/utils.py b/marsh/utils.py
index 72a14b8..9d0da1e 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -492,6 +492,7 @@ class _CachedHashKey(list):
         self,
         value,
     ):
+        super().__init__(value)
         self._hash = hash(value)
 
     def __hash__(self):
-- 
2.43.0


From bcfa9d94a43d10837b8ea344699882392a884b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 29/99] fix: keep the keys of a SafeDict unique and in order

---
 marsh/utils.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 9d0da1e..282b9b9 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -590,7 +590,8 @@ class SafeDict(MutableMapping[_K, _V]):
                 self._order = [(True, i) for i in range(len(self._hashable_cache))]
             for i, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
                 if k == key:
-                    self._unhashable_cache[-i] = (key, value)
+                    self._unhashable_cache[-i] = (k, value)
+                    break
             else:
                 self._order.append((False, len(self._unhashable_cache)))
                 self._unhashable_cache.append((key, value))
@@ -607,24 +608,29 @@ class SafeDict(MutableMapping[_K, _V]):
                 if self._unhashable_cache:
                     for key_idx, k in enumerate(self._hashable_cache):
                         if k == key:
-                            for order_idx, (hashable, idx) in enumerate(self._order):
-                                if hashable and idx == key_idx:
-                                    self._order.pop(order_idx)
-                                    break
+                            self._remove_from_order(True, key_idx)
                             break
                 del self._hashable_cache[key]
                 return
         except TypeError:
-            for key_idx, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
+            for key_idx, (k, _) in enumerate(self._unhashable_cache):
                 if k == key:
-                    self._unhashable_cache.pop(-key_idx)
-                    for order_idx, (hashable, idx) in enumerate(self._order):
-                        if not hashable and idx == key_idx:
-                            self._order.pop(order_idx)
-                            break
+                    self._unhashable_cache.pop(key_idx)
+                    self._remove_from_order(False, key_idx)
                     return
         raise KeyError(key)
 
+    def _remove_from_order(
+        self,
+        hashable: bool,
+        index: int,
+    ) -> None:
+        self._order = [
+            (other, idx - (other == hashable and idx > index))
+            for other, idx in self._order
+            if (other, idx) != (hashable, index)
+        ]
+
     def _ordered_iter(
         self,
         reverse: bool,
-- 
2.43.0


From e5af2a79d33d840ad537260f7113bcb37ae1cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:05 +0000
Subject: [PATCH 30/99] fix: let several iterations share one iterator

---
 marsh/utils.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 282b9b9..2de3774 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -9,6 +9,7 @@ import inspect
 import os
 import shutil
 import sys
+import threading
 import weakref
 import types
 import typing
@@ -977,16 +978,23 @@ class IterableFromIterator(Generic[_T]):
         self,
         iterator: Iterator[_T],
     ) -> None:
-        self._iter = iterator
+        self._iter = iter(iterator)
         self._cache: list = []
+        self._lock = threading.RLock()
 
     def __iter__(
         self,
     ) -> Iterator[_T]:
-        yield from self._cache
-        for item in self._iter:
-            self._cache.append(item)
-            yield item
+        index = 0
+        while True:
+            with self._lock:
+                if index == len(self._cache):
+                    try:
+                        self._cache.append(next(self._iter))
+                    except StopIteration:
+                        return
+            yield self._cache[index]
+            index += 1
 
     def __bool__(
         self,
-- 
2.43.0


From 45a6fc8cdec12a05e9085cc04ad32637630dc0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:10 +0000
Subject: [PATCH 31/99] fix: iterate over a snapshot of the cached types

---
 marsh/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 2de3774..6af53f5 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1326,7 +1326,7 @@ class WeakTypeCache:
     ) -> Iterator[Any]:
         data = getattr(self._types, 'data', None)
         if isinstance(data, dict):
-            for ref in reversed(data):
+            for ref in reversed(tuple(data)):
                 type_ = ref()
                 if type_ is not None:
                     yield type_
-- 
2.43.0


From bb8b6648155b1f92ccbaab7bedd3c36a048f57d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 32/99] fix: bind a cached method per thread

---
 marsh/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 6af53f5..1feb0fa 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -404,13 +404,13 @@ def cache(
             disabled = False
 
         if binding == 'ignore':
-            _self: Any = None
+            bound = threading.local()
 
             def cached_func(
                 *args,
                 **kwargs,
             ) -> _T:
-                return func(_self, *args, **kwargs)
+                return func(bound.self, *args, **kwargs)
 
             def delegating_func(
                 self,
@@ -419,8 +419,7 @@ def cache(
             ) -> _T:
                 if disabled:
                     return func(self, *args, **kwargs)
-                nonlocal _self
-                _self = self
+                bound.self = self
                 return cached_func(*args, **kwargs)
 
         elif binding == 'weak':
-- 
2.43.0


From ae11f7991bea0806528760c37760eebbb6e4772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 33/99] fix: reference a type as recursive only while it is
 being built

---
 marsh/schema/core/unmarshal.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index d821b95..129ff20 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -259,9 +259,12 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             except KeyError:
                 pass
         result = cls.registry.match(value)
-        result.insert(0, RecursiveReferenceUnmarshalSchema)
-        recursive_cache[value] = result
-        return result[1:].build(value, *args, **kwargs)
+        recursive_cache[value] = \
+            base.SchemaSelection([RecursiveReferenceUnmarshalSchema]) + result
+        try:
+            return result.build(value, *args, **kwargs)
+        finally:
+            del recursive_cache[value]
 
     @base.caches.new_callable_cache(
         name='marsh.schema.UnmarshalSchema.__new__',
-- 
2.43.0


From 5c2ba9e0c9ae8913f6584688d4ec1325af15f8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 34/99] fix: tell apart types and defaults that compare equal
 when caching schemas

---
 marsh/schema/core/unmarshal.py | 37 ++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 129ff20..dc3c579 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -106,6 +106,34 @@ def resolve_type(
     return value
 
 
+def make_build_key(
+    value: Any,
+    *args,
+    **kwargs,
+) -> Optional[str]:
+    """Make a key that tells apart the arguments of schemas
+    that compare equal but differ, such as the order of the types
+    in a nested union or the default values ``1`` and ``True``.
+
+    Arguments:
+        value: The type of the schema.
+        *args: Positional arguments to the schema.
+        **kwargs: Keyword arguments to the schema.
+
+    Returns:
+        The key. :data:`None` if the schema depends on anything
+        else than its arguments, as is the case for a nested
+        forward reference.
+    """
+    try:
+        key = repr((value, args, kwargs))
+    except Exception:
+        return None
+    if ForwardRef.__name__ in key:
+        return None
+    return key
+
+
 class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
 
     def cache_clear(
@@ -235,8 +263,16 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
                 *args,
                 **kwargs,
             )
+        key = make_build_key(value, *args, **kwargs)
+        if key is None:
+            return cls._build(
+                value=value,
+                *args,
+                **kwargs,
+            )
         return cls._cached_build(
             value=value,
+            key=key,
             *args,
             **kwargs,
         )
@@ -274,6 +310,7 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
     def _cached_build(
         cls,  # noqa: B902
         value,
+        key,
         *args,
         **kwargs,
     ):
-- 
2.43.0


From 2593c4500e8097d07a14aebe44ee0d6dc1824524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 35/99] fix: apply a registered schema to types that are
 already in use

---
 marsh/schema/core/unmarshal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index dc3c579..59dcd1b 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -185,14 +185,15 @@ class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
         Type['UnmarshalSchema'],
     ]:
         def wrapper(_schema):
-            self.cache_clear()
-            return self.priority.add(
+            result = self.priority.add(
                 _schema,
                 priority=priority,
                 lower_priority=lower_priority,
                 higher_priority=higher_priority,
                 replace=replace,
             )
+            base.caches.cache_clear()
+            return result
         if schema is None:
             return wrapper
         return wrapper(schema)
-- 
2.43.0


From 54251d366e111b92a9106b066d85bcb189389ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:07 +0000
Subject: [PATCH 36/99] fix: detect values that are already part of a priority
 order

---
 marsh/utils.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 1feb0fa..9b0cdb4 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1268,20 +1268,21 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
             )
 
             # does the value to be added already exist?
-            for i in range(len(self._values)):
-                if self._values[i] == wrapped:
-                    if replace:
-                        del self._values[i]
-                        break
+            values = list(self._values)
+            for i, position in enumerate(values):
+                if position.value == wrapped.value and not replace:
                     raise ValueError(
                         f'{wrapped} already exists.',
                     )
+                if replace and position.name == wrapped.name:
+                    del values[i]
+                    break
 
             # find insertion index for value based on priorities.
             # circular priorities with a length larger than 1 do
             # not raise an error.
             idx = 0
-            for i, position in enumerate(self._values):
+            for i, position in enumerate(values):
                 if wrapped.relative_priority > position.relative_priority:
                     break
                 if (
@@ -1289,7 +1290,8 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
                     or wrapped.priority < position.priority
                 ):
                     idx = i + 1
-            self._values.insert(idx, wrapped)
+            values.insert(idx, wrapped)
+            self._values = values
             return value
         if value is None:
             return wrapper
-- 
2.43.0


From 6787ac0f25af51a2016222446bc9faccdd9ed841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 37/99] fix: honour every relative priority of a priority order

---
 marsh/utils.py | 56 +++++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 9b0cdb4..7439607 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1216,15 +1216,37 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
         self,
     ) -> None:
         """Reshuffle values in this container based on priority."""
-        values = sorted(self._values, key=lambda x: x.index)
-        del self._values[:]
-        for value in values:
-            self.add(
-                value=value.value,
-                priority=value.priority,
-                lower_priority=value.relative_priority.lower,
-                higher_priority=value.relative_priority.higher,
-            )
+        self._values = self._sorted(self._values)
+
+    @staticmethod
+    def _sorted(
+        values: Iterable['PriorityOrder._WrappedValue[_T]'],
+    ) -> List['PriorityOrder._WrappedValue[_T]']:
+        """Order values by priority.
+
+        Relative priorities take precedence over base priorities.
+        The most recently added value is put first for equal priorities.
+        Circular priorities with a length larger than 1 do
+        not raise an error.
+        """
+        remaining = sorted(
+            values,
+            key=lambda x: (x.priority, x.index),
+            reverse=True,
+        )
+        result: List[PriorityOrder._WrappedValue[_T]] = []
+        while remaining:
+            for i, value in enumerate(remaining):
+                if not any(
+                    value.relative_priority < other.relative_priority
+                    for other in remaining
+                    if other is not value
+                ):
+                    break
+            else:
+                i = 0
+            result.append(remaining.pop(i))
+        return result
 
     @overload
     def add(
@@ -1278,20 +1300,8 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
                     del values[i]
                     break
 
-            # find insertion index for value based on priorities.
-            # circular priorities with a length larger than 1 do
-            # not raise an error.
-            idx = 0
-            for i, position in enumerate(values):
-                if wrapped.relative_priority > position.relative_priority:
-                    break
-                if (
-                    wrapped.relative_priority < position.relative_priority
-                    or wrapped.priority < position.priority
-                ):
-                    idx = i + 1
-            values.insert(idx, wrapped)
-            self._values = values
+            values.append(wrapped)
+            self._values = self._sorted(values)
             return value
         if value is None:
             return wrapper
-- 
2.43.0


From e5ff61243c0c7c973f68a1ba9bbab11e64eac4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:23 +0000
Subject: [PATCH 38/99] fix: forget cached lookups when a namespace is created
 or deleted

---
 marsh/schema/namespace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index 123187a..8b429a4 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -138,6 +138,8 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         name,
     ) -> None:
         del self._namespaces[name]
+        self.cache_clear(full=True)
+        marsh.schema.UnmarshalSchema.cache_clear()
 
     def __contains__(
         self,
@@ -224,6 +226,8 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
                 base=base,
             )
         )
+        self.cache_clear(full=True)
+        marsh.schema.UnmarshalSchema.cache_clear()
         return namespace
 
     def cache_clear(
-- 
2.43.0


From 6785c4f2bceac9858ef292ad15078805a590baf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:30 +0000
Subject: [PATCH 39/99] fix: build the schema of a component from the current
 types

---
 marsh/schema/namespace.py | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index 8b429a4..e51c978 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -383,7 +383,6 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
         self.name = name
         self.base = base
         self.components = {}
-        self._schemas: Dict[str, core.unmarshal.UnmarshalSchema[_T]] = {}
         # when wrapping functions on an instance the `self`
         # argument is not included until the most inner
         # wrapped function is called which means that we
@@ -411,23 +410,21 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
                     key='name',
                 ),
             )
-        if name not in self._schemas:
-            # instead of picking out the matched
-            # schema types we need to run the normal
-            # constructor so that the type is cached.
-            # If not, the recursive tests for namespace
-            # components fail.
-            schema = marsh.schema.UnmarshalSchema[_T](
-                self.components[name],
-            )
-            # extract inner schema
-            while isinstance(
-                schema,
-                marsh.schema.types.namespace.NamespaceUnmarshalSchema,
-            ):
-                schema = schema.schema
-            self._schemas[name] = schema
-        return self._schemas[name]
+        # instead of picking out the matched
+        # schema types we need to run the normal
+        # constructor so that the type is cached.
+        # If not, the recursive tests for namespace
+        # components fail.
+        schema = marsh.schema.UnmarshalSchema[_T](
+            self.components[name],
+        )
+        # extract inner schema
+        while isinstance(
+            schema,
+            marsh.schema.types.namespace.NamespaceUnmarshalSchema,
+        ):
+            schema = schema.schema
+        return schema
 
     def __iter__(
         self,
@@ -566,7 +563,6 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
                     f'a component with the name "{name}" '
                     'already exists',
                 )
-            self._schemas.pop(name, None)
 
         def _register(
             component: Type[_T],
-- 
2.43.0


From 145bf4f65935a819aaf6a1f38291705c78be1b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:35 +0000
Subject: [PATCH 40/99] fix: refuse an existing name when the component is
 registered

---
 marsh/schema/namespace.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index e51c978..a1961d7 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -557,16 +557,14 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
             A decorator for registering the type if no
             type was given else the type itself.
         """
-        if name in self:
-            if not replace:
+        def _register(
+            component: Type[_T],
+        ) -> Type[_T]:
+            if name in self and not replace:
                 raise marsh.errors.MarshError(
                     f'a component with the name "{name}" '
                     'already exists',
                 )
-
-        def _register(
-            component: Type[_T],
-        ) -> Type[_T]:
             if not issubclass(component, self.base):
                 raise ValueError(
                     'registered component must be '
-- 
2.43.0


From 94ec5aaf1887a4837e93165626a7c1da6e36d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 41/99] fix: use the default of a missing datetime

---
 marsh/schema/types/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index 4899039..8dfd99d 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -114,6 +114,8 @@ class DatetimeUnmarshalSchema(
         element: marsh.element.ElementType,
     ) -> Union[datetime.time, datetime.date]:
         if marsh.utils.is_missing(element):
+            if self.has_default():
+                return self.get_default()
             raise marsh.errors.MissingValueError(
                 type=self.value,
             )
-- 
2.43.0


From 096cda33ea31f21363d45cff9ce0db023e29b08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:53 +0000
Subject: [PATCH 42/99] fix: report a timestamp out of range as an unmarshal
 error

---
 marsh/schema/types/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index 8dfd99d..e481aec 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -137,7 +137,7 @@ class DatetimeUnmarshalSchema(
                 ts,
                 datetime.timezone.utc,
             )
-        except ValueError:
+        except (ValueError, OverflowError, OSError):
             if isinstance(element, str):
                 dt = dateparser.parse(element, settings={'DATE_ORDER': 'DMY'})
         if dt is None:
-- 
2.43.0


From 63534a179d14ec32c508aae5717f58d038f7bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:58 +0000
Subject: [PATCH 43/99] fix: use the default of a missing protocol value

---
 marsh/schema/types/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/schema/types/protocol.py b/marsh/schema/types/protocol.py
index da5a8dc..e16fa81 100644
--- a/marsh/schema/types/protocol.py
+++ b/marsh/schema/types/protocol.py
@@ -90,6 +90,8 @@ class ProtocolUnmarshalSchema(marsh.schema.UnmarshalSchema[Any]):
         self,
         element: marsh.element.ElementType,
     ) -> Any:
+        if marsh.utils.is_missing(element) and self.has_default():
+            return self.get_default()
         for type_ in self.matched:
             try:
                 return marsh.unmarshal(type_, element)
-- 
2.43.0


From b369395d964151e924c1527663261059a8c0a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 44/99] fix: marshal subclasses of str into their string value

---
 marsh/schema/types/primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/primitive.py b/marsh/schema/types/primitive.py
index e8566e6..fe355c3 100644
--- a/marsh/schema/types/primitive.py
+++ b/marsh/schema/types/primitive.py
@@ -44,7 +44,7 @@ class PrimitiveMarshalSchema(marsh.schema.MarshalSchema):
         elif isinstance(self.value, float):
             return float(self.value)
         else:
-            return str(self.value)
+            return str.__str__(self.value)
 
 
 @marsh.schema.register
-- 
2.43.0


From 55ea2252f49f313f37ff5ba83202cbde19cdf579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 45/99] fix: match the names of an enum before its values

---
 marsh/schema/types/enum.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/marsh/schema/types/enum.py b/marsh/schema/types/enum.py
index c07abf6..8c75981 100644
--- a/marsh/schema/types/enum.py
+++ b/marsh/schema/types/enum.py
@@ -43,6 +43,24 @@ class EnumUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_E]):
             'enum values (the name or value).'
         )
 
+    def unmarshal(
+        self,
+        element: marsh.element.ElementType,
+    ) -> _E:
+        # the name of a member takes precedence over the
+        # values of all members
+        if (
+            marsh.utils.is_primitive(element)
+            and not marsh.utils.is_missing(element)
+        ):
+            for schema in self.schemas:
+                try:
+                    marsh.utils.cast_literal(schema.value.name, element)
+                    return schema.value
+                except ValueError:
+                    pass
+        return super().unmarshal(element)
+
 
 @marsh.schema.register
 class EnumValueMarshalSchema(marsh.schema.MarshalSchema):
-- 
2.43.0


From 1ad83d49fc1625dd01cf4bced1d09fd91924b030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 46/99] fix: accept whitespace in the text of a slice

---
 marsh/schema/types/slice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/slice.py b/marsh/schema/types/slice.py
index 53819b0..f282664 100644
--- a/marsh/schema/types/slice.py
+++ b/marsh/schema/types/slice.py
@@ -115,7 +115,7 @@ class SliceUnmarshalSchema(marsh.schema.UnmarshalSchema[slice]):
                     type=self.value,
                 )
             args = tuple(
-                int(index) if index else None
+                int(''.join(index.split())) if index.strip() else None
                 for index
                 in element.split(':')
             )
-- 
2.43.0


From f9e80e90f869a78055d3a0ec890c76b61c057676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:08 +0000
Subject: [PATCH 47/99] fix: remember only a working input of a default factory

---
 marsh/schema/types/defaultdict.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/types/defaultdict.py b/marsh/schema/types/defaultdict.py
index f17ad97..8ab3c0b 100644
--- a/marsh/schema/types/defaultdict.py
+++ b/marsh/schema/types/defaultdict.py
@@ -30,12 +30,13 @@ class InitType(Generic[_T]):
     ) -> _T:
         if self.input is not self._sentinel:
             return self.schema.unmarshal(self.input)
-        for self.input in (marsh.MISSING, 0, '', None):
+        for element in (marsh.MISSING, 0, '', None):
             try:
-                return self.schema.unmarshal(self.input)
+                value = self.schema.unmarshal(element)
             except Exception:
-                pass
-        self.input = self._sentinel
+                continue
+            self.input = element
+            return value
         raise marsh.errors.MarshError(
             'could not automatically initialize the type '
             f'{self.schema.doc_type()}',
-- 
2.43.0


From 600fb9dca484a3d1fe511952c05f25dec0752a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:12 +0000
Subject: [PATCH 48/99] fix: marshal the keys of a mapping like values

---
 marsh/schema/types/generic.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/generic.py b/marsh/schema/types/generic.py
index d021ff9..fd3454a 100644
--- a/marsh/schema/types/generic.py
+++ b/marsh/schema/types/generic.py
@@ -46,10 +46,22 @@ class GenericMappingMarshalSchema(marsh.schema.MarshalSchema):
         self,
     ) -> dict:
         return {
-            str(key): marsh.marshal(self.value[key])
+            self.marshal_key(key): marsh.marshal(self.value[key])
             for key in self.value.keys()
         }
 
+    @staticmethod
+    def marshal_key(
+        key: Any,
+    ) -> str:
+        try:
+            element = marsh.marshal(key)
+        except marsh.errors.MarshError:
+            return str(key)
+        if marsh.utils.is_primitive(element):
+            return str(element)
+        return str(key)
+
 
 @marsh.schema.register(priority=GENERIC_PRIORITY)
 class GenericSequenceMarshalSchema(marsh.schema.MarshalSchema):
-- 
2.43.0


From 6d41b241dab4e779e868132c57691a99094f9022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 49/99] fix: read the ISO format that datetime objects are
 marshaled into

---
 marsh/schema/types/datetime.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index e481aec..17eca1f 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -139,7 +139,12 @@ class DatetimeUnmarshalSchema(
             )
         except (ValueError, OverflowError, OSError):
             if isinstance(element, str):
-                dt = dateparser.parse(element, settings={'DATE_ORDER': 'DMY'})
+                try:
+                    if self.value == datetime.time:
+                        return datetime.time.fromisoformat(element)
+                    dt = datetime.datetime.fromisoformat(element)
+                except ValueError:
+                    dt = dateparser.parse(element, settings={'DATE_ORDER': 'DMY'})
         if dt is None:
             raise marsh.errors.UnmarshalError(
                 'failed to parse timestamp',
-- 
2.43.0


From 814cd2b8b06ad467f2d58b14c60e60a8c2bae09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:43 +0000
Subject: [PATCH 50/99] fix: document the defaults of arguments given by
 position

---
 marsh/schema/template/structured.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index c2c0171..9b36f4f 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -132,7 +132,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
         default_args = list(default_args or ())
         default_kwargs = dict(default_kwargs or {})
         fields: Dict[str, UnmarshalSchema.Doc.Field] = {}
-        for i, (name, schema) in enumerate(self.schemas.items()):
+        for name, schema in self.schemas.items():
             fields[name] = UnmarshalSchema.Doc.Field(
                 doc=schema.doc(depth - 1),
                 type=schema.doc_field_type(),
@@ -150,11 +150,11 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                 if default_args:
                     default = str(default_args)
                     default_args = []
-            if i < len(default_args):
+            elif default_args and name not in self.keyword:
                 default = str(default_args.pop(0))
             if name in default_kwargs:
                 default = str(default_kwargs.pop(name))
-            if default:
+            if default is not None:
                 fields[name].doc.default = default
         return fields
 
-- 
2.43.0


From 2ce5043712d4c41a78b9385938b36b92651f8310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:39 +0000
Subject: [PATCH 51/99] fix: convert to the subclass of a primitive type

---
 marsh/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 7439607..76a49d8 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2118,9 +2118,11 @@ def cast_primitive(
     if issubclass(type_, bool):
         return primitive_to_bool(value)
     if issubclass(type_, int) and isinstance(value, str):
-        return str_to_int(value)
+        return type_(str_to_int(value))
     if issubclass(type_, int) and isinstance(value, float):
-        return float_to_int(value)
+        return type_(float_to_int(value))
+    if issubclass(type_, float):
+        return type_(float(value))
     return type_(value)
 
 
-- 
2.43.0


From 8955bc0c8d840f36fc23836d891fc12e43419842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 52/99] fix: unmarshal unions written with the | operator

---
 marsh/schema/core/unmarshal.py |  3 +--
 marsh/schema/types/union.py    |  4 +---
 marsh/utils.py                 | 24 +++++++++++++++++++++++-
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 59dcd1b..5ea625e 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -16,7 +16,6 @@ from typing import (
     Type,
     TypeVar,
     Union,
-    get_origin,
     overload,
 )
 from typing_extensions import TypeAlias
@@ -258,7 +257,7 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             return type(object).__call__(cls, value, *args, **kwargs)
         metacls: 'UnmarshalSchemaMeta' = type(cls)
         value = resolve_type(value, cache=metacls.type_cache)
-        if get_origin(value) is Union:
+        if marsh.utils.is_union(value):
             return cls._build(
                 value=value,
                 *args,
diff --git a/marsh/schema/types/union.py b/marsh/schema/types/union.py
index b030b08..36ddb98 100644
--- a/marsh/schema/types/union.py
+++ b/marsh/schema/types/union.py
@@ -1,9 +1,7 @@
 from typing import (
     Any,
     TypeVar,
-    Union,
     get_args,
-    get_origin,
 )
 
 import marsh
@@ -36,7 +34,7 @@ class UnionUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_T]):
         value: Any,
     ) -> bool:
         return bool(
-            get_origin(value) is Union
+            marsh.utils.is_union(value)
             and get_args(value),
         )
 
diff --git a/marsh/utils.py b/marsh/utils.py
index 76a49d8..169a329 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1847,6 +1847,28 @@ def is_typing_alias(
     )
 
 
+def is_union(
+    value: Any,
+) -> bool:
+    """Determine if a value is a union of types.
+
+    Both :data:`typing.Union` and the ``|`` operator
+    (python 3.10+) are supported.
+
+    Arguments:
+        value: Any value to evaluate.
+
+    Returns:
+        ``True`` if value is a union of types, else ``False``.
+    """
+    origin = get_origin(value)
+    return (
+        origin is Union
+        or origin is not None
+        and origin is getattr(types, 'UnionType', None)
+    )
+
+
 def is_optional(
     type_: Any,
 ) -> bool:
@@ -1861,7 +1883,7 @@ def is_optional(
     """
     if is_annotated(type_):
         type_ = get_origin(type_)
-    return get_origin(type_) is Union \
+    return is_union(type_) \
         and type(None) in get_args(type_)
 
 
-- 
2.43.0


From 893993cddaef9257a5b5c0681e820b0d5d46371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 53/99] fix: report that an empty container can not be
 constructed

---
 marsh/schema/template/mapping.py  | 2 +-
 marsh/schema/template/sequence.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/template/mapping.py b/marsh/schema/template/mapping.py
index c07ad22..74d5040 100644
--- a/marsh/schema/template/mapping.py
+++ b/marsh/schema/template/mapping.py
@@ -54,7 +54,7 @@ class MappingUnmarshalSchema(UnmarshalSchema[_T]):
         if marsh.utils.is_missing(element):
             if self.has_default():
                 return self.get_default()
-            return self.construct({})
+            element = {}
         if not marsh.utils.is_mapping(element):
             raise marsh.errors.UnmarshalError(
                 (
diff --git a/marsh/schema/template/sequence.py b/marsh/schema/template/sequence.py
index 91825ce..9ae249d 100644
--- a/marsh/schema/template/sequence.py
+++ b/marsh/schema/template/sequence.py
@@ -47,7 +47,7 @@ class SequenceUnmarshalSchema(UnmarshalSchema[_T]):
         if marsh.utils.is_missing(element):
             if self.has_default():
                 return self.get_default()
-            return self.construct(())
+            element = ()
         if not marsh.utils.is_sequence(element):
             raise marsh.errors.UnmarshalError(
                 (
-- 
2.43.0


From 21617b7d14a5aa6a6cb87b9908836be10f9a366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:23 +0000
Subject: [PATCH 54/99] fix: evaluate forward references

---
 marsh/schema/core/unmarshal.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 5ea625e..de0d7e1 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -46,16 +46,13 @@ def resolve_forward_ref(
     ref: ForwardRef,
     cache: Iterable[Any],
 ) -> Any:
-    name = ref.__forward_arg__
+    name = expr = ref.__forward_arg__
     mod = ''
     if '.' in name:
         mod, _, name = name.rpartition('.')
     if mod:
         try:
-            return ref._evaluate(
-                vars(importlib.import_module(mod)),
-                None,
-            )
+            return eval(name, dict(vars(importlib.import_module(mod))))
         except Exception:
             pass
     for type_ in cache:
@@ -63,13 +60,24 @@ def resolve_forward_ref(
             return type_
         if hasattr(type_, '__module__'):
             try:
-                return ref._evaluate(
-                    vars(
-                        importlib.import_module(
-                            type_.__module__ + (f'.{mod}' if mod else ''),
+                return eval(
+                    expr,
+                    dict(vars(importlib.import_module(type_.__module__))),
+                )
+            except Exception:
+                pass
+            if not mod:
+                continue
+            try:
+                return eval(
+                    name,
+                    dict(
+                        vars(
+                            importlib.import_module(
+                                f'{type_.__module__}.{mod}',
+                            ),
                         ),
                     ),
-                    None,
                 )
             except Exception:
                 pass
-- 
2.43.0


From c762e02e614959191cf4589cf7c736196d8b9001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:37 +0000
Subject: [PATCH 55/99] fix: keep the annotations of fields whose annotations
 are strings

---
 marsh/schema/template/callable.py |  5 +--
 marsh/schema/types/dataclass.py   |  5 ++-
 marsh/schema/types/namedtuple.py  |  3 +-
 marsh/schema/types/typeddict.py   | 71 ++++++++++++++++++++++++-------
 marsh/utils.py                    | 26 +++++++++++
 5 files changed, 88 insertions(+), 22 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 4b2ab10..1a0750f 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -4,7 +4,6 @@ from typing import (
     Any,
     ForwardRef,
     TypeVar,
-    get_type_hints,
 )
 
 import marsh
@@ -31,9 +30,9 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             )
         try:
             if inspect.isclass(self.value):
-                annotations = get_type_hints(self.value.__init__)
+                annotations = marsh.utils.resolve_type_hints(self.value.__init__)
             else:
-                annotations = get_type_hints(self.value)
+                annotations = marsh.utils.resolve_type_hints(self.value)
         except Exception:
             annotations = {}
         positional = {}
diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 4b0bbcb..62a4e66 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -7,7 +7,6 @@ from typing import (
     Optional,
     Tuple,
     TypeVar,
-    get_type_hints,
 )
 
 import marsh
@@ -96,7 +95,9 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
     ) -> None:
         super().__init__(*args, **kwargs)
         try:
-            annotations = get_type_hints(marsh.utils.get_type(self.value))
+            annotations = marsh.utils.resolve_type_hints(
+                marsh.utils.get_type(self.value),
+            )
         except Exception:
             annotations = {}
         schemas = {}
diff --git a/marsh/schema/types/namedtuple.py b/marsh/schema/types/namedtuple.py
index 38a2058..a4da062 100644
--- a/marsh/schema/types/namedtuple.py
+++ b/marsh/schema/types/namedtuple.py
@@ -4,7 +4,6 @@ from typing import (
     Any,
     Optional,
     TypeVar,
-    get_type_hints,
 )
 
 import marsh
@@ -73,7 +72,7 @@ class NamedTupleUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[
     ) -> None:
         super().__init__(*args, **kwargs)
         schemas = {}
-        annotations = get_type_hints(self.value)
+        annotations = marsh.utils.resolve_type_hints(self.value)
         for field in self.value._fields:
             with marsh.errors.prepend(field):
                 schemas[field] = marsh.schema.UnmarshalSchema(
diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 44c3f32..33e5386 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -2,11 +2,15 @@ import functools
 import types
 from typing import (
     Any,
+    Dict,
+    Optional,
     Sequence,
+    Tuple,
     TypeVar,
-    get_type_hints,
 )
 
+import typing_extensions
+
 import marsh
 from . import mapping
 
@@ -14,6 +18,37 @@ from . import mapping
 _T = TypeVar('_T')
 
 
+_REQUIRED = {
+    getattr(typing_extensions, name): required
+    for name, required in (
+        ('Required', True),
+        ('NotRequired', False),
+        ('ReadOnly', None),
+    )
+    if hasattr(typing_extensions, name)
+}
+
+
+def split_qualifiers(
+    type_: Any,
+) -> Tuple[Any, Optional[bool]]:
+    """Split the annotation of a key into the type of its value
+    and whether the annotation says that the key is required."""
+    origin = typing_extensions.get_origin(type_)
+    if origin is typing_extensions.Annotated:
+        value, required = split_qualifiers(type_.__origin__)
+        return (
+            typing_extensions.Annotated[(value, *type_.__metadata__)],
+            required,
+        )
+    if origin not in _REQUIRED:
+        return type_, None
+    value, required = split_qualifiers(type_.__args__[0])
+    if required is None:
+        required = _REQUIRED[origin]
+    return value, required
+
+
 class _Sentinel:
 
     def __str__(
@@ -32,24 +67,31 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         if hasattr(self.value, '__required_keys__'):
             keys = self.value.__required_keys__  # type: ignore
         elif self.value.__total__:  # type: ignore
-            keys = frozenset(get_type_hints(self.value))
+            keys = frozenset(self._annotations)
         else:
             keys = frozenset()
-        ordered_keys = tuple(get_type_hints(self.value))
-        return sorted(keys, key=lambda x: ordered_keys.index(x))
+        return [
+            name
+            for name, (_, required) in self._annotations.items()
+            if (name in keys if required is None else required)
+        ]
 
     @functools.cached_property
     def optional_keys(
         self,
     ) -> Sequence[str]:
-        if hasattr(self.value, '__optional_keys__'):
-            keys = self.value.__optional_keys__  # type: ignore
-        elif not self.value.__total__:  # type: ignore
-            keys = frozenset(get_type_hints(self.value))
-        else:
-            keys = frozenset()
-        ordered_keys = tuple(get_type_hints(self.value))
-        return sorted(keys, key=lambda x: ordered_keys.index(x))
+        required = frozenset(self.required_keys)
+        return [name for name in self._annotations if name not in required]
+
+    @functools.cached_property
+    def _annotations(
+        self,
+    ) -> Dict[str, Tuple[Any, Optional[bool]]]:
+        return {
+            name: split_qualifiers(type_)
+            for name, type_
+            in marsh.utils.resolve_type_hints(self.value).items()
+        }
 
     def __init__(
         self,
@@ -58,18 +100,17 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
     ) -> None:
         super().__init__(*args, **kwargs)
         self._sentinel = _Sentinel()
-        annotations = get_type_hints(self.value)
         self.schemas = types.MappingProxyType(
             {
                 **{
                     name: marsh.schema.UnmarshalSchema(
-                        annotations[name],
+                        self._annotations[name][0],
                     )
                     for name in self.required_keys
                 },
                 **{
                     name: marsh.schema.UnmarshalSchema(
-                        annotations[name],
+                        self._annotations[name][0],
                         default=self._sentinel,
                     )
                     for name in self.optional_keys
diff --git a/marsh/utils.py b/marsh/utils.py
index 169a329..aee3dd7 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1611,6 +1611,32 @@ def is_namedtuple_type(
     return False
 
 
+def resolve_type_hints(
+    value: Any,
+) -> Dict[str, Any]:
+    """Get the resolved annotations of a class or a function.
+
+    Unlike :func:`typing.get_type_hints` any :class:`~typing.Annotated`
+    is kept, and a forward reference is always resolved
+    where the function it annotates was defined.
+
+    Arguments:
+        value: A class or a function.
+
+    Returns:
+        The annotations by name.
+    """
+    if inspect.isclass(value):
+        return typing_extensions.get_type_hints(value, include_extras=True)
+    # without a namespace of its own the result is remembered by the
+    # forward reference, which may be shared with other modules.
+    return typing_extensions.get_type_hints(
+        value,
+        localns={},
+        include_extras=True,
+    )
+
+
 def is_typed_namedtuple(
     value: Any,
 ) -> TypeGuard[NamedTupleProtocol]:
-- 
2.43.0


From 867138e0b6bd16f4caf26ef05fce4941936f076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:34 +0000
Subject: [PATCH 56/99] fix: resolve forward references where they were written

---
 marsh/schema/template/callable.py |  2 ++
 marsh/schema/types/dataclass.py   |  3 +--
 marsh/utils.py                    | 43 ++++++++++++++++++++++++++++++-
 3 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 1a0750f..c8c19cc 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -46,6 +46,8 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
                 or isinstance(param.annotation, (str, ForwardRef))
             ):
                 type_ = annotations.get(name, Any)
+            elif marsh.utils.has_forward_reference(param.annotation):
+                type_ = annotations.get(name, param.annotation)
             else:
                 type_ = param.annotation
             default = marsh.MISSING
diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 62a4e66..695ab5d 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -3,7 +3,6 @@ import re
 import types
 from typing import (
     Any,
-    ForwardRef,
     Optional,
     Tuple,
     TypeVar,
@@ -107,7 +106,7 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
             type_: Any,
         ) -> Any:
             try:
-                if isinstance(type_, (str, ForwardRef)):
+                if marsh.utils.has_forward_reference(type_):
                     type_ = annotations.get(field.name, type_)
             except Exception:
                 pass
diff --git a/marsh/utils.py b/marsh/utils.py
index aee3dd7..1733c91 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -20,6 +20,7 @@ from typing import (
     ClassVar,
     DefaultDict,
     Dict,
+    ForwardRef,
     Final,
     Generic,
     Iterable,
@@ -1627,7 +1628,27 @@ def resolve_type_hints(
         The annotations by name.
     """
     if inspect.isclass(value):
-        return typing_extensions.get_type_hints(value, include_extras=True)
+        hints = typing_extensions.get_type_hints(value, include_extras=True)
+        for name, hint in hints.items():
+            if (
+                isinstance(hint, dataclasses.InitVar)
+                and has_forward_reference(hint.type)
+            ):
+                owner = next(
+                    cls for cls in inspect.getmro(value)
+                    if name in vars(cls).get('__annotations__', ())
+                )
+                hints.update(
+                    typing_extensions.get_type_hints(
+                        types.SimpleNamespace(
+                            __annotations__={name: hint.type},
+                        ),
+                        vars(sys.modules[owner.__module__]),
+                        dict(vars(owner)),
+                        include_extras=True,
+                    ),
+                )
+        return hints
     # without a namespace of its own the result is remembered by the
     # forward reference, which may be shared with other modules.
     return typing_extensions.get_type_hints(
@@ -1637,6 +1658,26 @@ def resolve_type_hints(
     )
 
 
+def has_forward_reference(
+    value: Any,
+) -> bool:
+    """Determine if an annotation is, or contains, a forward reference.
+
+    Arguments:
+        value: The annotation.
+
+    Returns:
+        ``True`` if it has a forward reference, else ``False``.
+    """
+    if isinstance(value, (str, ForwardRef)):
+        return True
+    if is_literal(value):
+        return False
+    if is_annotated(value):
+        return has_forward_reference(value.__origin__)
+    return any(map(has_forward_reference, get_args(value)))
+
+
 def is_typed_namedtuple(
     value: Any,
 ) -> TypeGuard[NamedTupleProtocol]:
-- 
2.43.0


From 7a7e3b8966beb37b18d266e3d6908253c5d51471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:21 +0000
Subject: [PATCH 57/99] fix: let a schema with a relative priority move instead
 of the one it refers to

---
 marsh/utils.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 1733c91..d190a7d 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1225,14 +1225,27 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
     ) -> List['PriorityOrder._WrappedValue[_T]']:
         """Order values by priority.
 
-        Relative priorities take precedence over base priorities.
+        Relative priorities take precedence over base priorities,
+        it is the value that was added last that has to move for them.
         The most recently added value is put first for equal priorities.
         Circular priorities with a length larger than 1 do
         not raise an error.
         """
-        remaining = sorted(
-            values,
-            key=lambda x: (x.priority, x.index),
+        remaining = sorted(values, key=lambda x: x.index)
+        position: Dict[int, Tuple[int, int]] = {}
+        for i, value in enumerate(remaining):
+            position[value.index] = max(
+                [
+                    (value.priority, value.index),
+                    *(
+                        position[other.index]
+                        for other in remaining[:i]
+                        if value.relative_priority > other.relative_priority
+                    ),
+                ],
+            )
+        remaining.sort(
+            key=lambda x: (position[x.index], x.priority, x.index),
             reverse=True,
         )
         result: List[PriorityOrder._WrappedValue[_T]] = []
-- 
2.43.0


From 4b432cb0a6bebaa0213555a689fd566edbe90ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 58/99] fix: do not lose registrations of other threads

---
 marsh/utils.py | 80 +++++++++++++++++++++++++++++---------------------
 1 file changed, 47 insertions(+), 33 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index d190a7d..52bc268 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1014,6 +1014,9 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
     RelativePriority: TypeAlias = Union[None, _V, int, Iterable[_V], Iterable[int]]
     """Relative priority input type."""
 
+    _lock: ClassVar = threading.RLock()
+    """Held while any order is modified."""
+
     class _RelativePriorityContainer:
 
         class _PriorityRelation(NamedTuple):
@@ -1166,6 +1169,12 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
     ) -> int:
         return len(self._values)
 
+    def __iter__(
+        self,
+    ) -> Iterator[_T]:
+        for value in tuple(self._values):
+            yield value.value
+
     @overload
     def __getitem__(
         self,
@@ -1199,25 +1208,29 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
 
         If the deleted value(s) had any relative priority relationship
         with the remaining values the entire priority order is recalculated."""
-        if isinstance(index, slice):
-            removed_values = self._values[index]
-        else:
-            removed_values = [self._values[index]]
-        del self._values[index]
-        # If removed value(s) had any relative priority relation
-        # with current values recalculate the entire order instead
-        # of doing something more fancy
-        for value in self._values:
-            for removed_value in removed_values:
-                if value.relative_priority.has_relation(removed_value.relative_priority):
-                    self.reload()
-                    return
+        with self._lock:
+            values = list(self._values)
+            if isinstance(index, slice):
+                removed_values = values[index]
+            else:
+                removed_values = [values[index]]
+            del values[index]
+            # If removed value(s) had any relative priority relation
+            # with current values recalculate the entire order instead
+            # of doing something more fancy
+            for value in values:
+                for removed_value in removed_values:
+                    if value.relative_priority.has_relation(removed_value.relative_priority):
+                        self._values = self._sorted(values)
+                        return
+            self._values = values
 
     def reload(
         self,
     ) -> None:
         """Reshuffle values in this container based on priority."""
-        self._values = self._sorted(self._values)
+        with self._lock:
+            self._values = self._sorted(self._values)
 
     @staticmethod
     def _sorted(
@@ -1296,26 +1309,27 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
     ) -> Union[Callable[[_T], _T], _T]:
 
         def wrapper(value: _T) -> _T:
-            wrapped = self._WrappedValue(
-                value=value,
-                priority=priority,
-                lower_priority=lower_priority,
-                higher_priority=higher_priority,
-            )
-
-            # does the value to be added already exist?
-            values = list(self._values)
-            for i, position in enumerate(values):
-                if position.value == wrapped.value and not replace:
-                    raise ValueError(
-                        f'{wrapped} already exists.',
-                    )
-                if replace and position.name == wrapped.name:
-                    del values[i]
-                    break
+            with self._lock:
+                wrapped = self._WrappedValue(
+                    value=value,
+                    priority=priority,
+                    lower_priority=lower_priority,
+                    higher_priority=higher_priority,
+                )
 
-            values.append(wrapped)
-            self._values = self._sorted(values)
+                # does the value to be added already exist?
+                values = list(self._values)
+                for i, position in enumerate(values):
+                    if position.value == wrapped.value and not replace:
+                        raise ValueError(
+                            f'{wrapped} already exists.',
+                        )
+                    if replace and position.name == wrapped.name:
+                        del values[i]
+                        break
+
+                values.append(wrapped)
+                self._values = self._sorted(values)
             return value
         if value is None:
             return wrapper
-- 
2.43.0


From d73bdea8f6614a55ba9d766218ddbed9604b8160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 59/99] fix: keep a type in the type cache while it is added
 again

---
 marsh/utils.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 52bc268..036e9b3 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1354,18 +1354,22 @@ class WeakTypeCache:
         self._types: MutableMapping[weakref.ReferenceType, None] = \
             weakref.WeakKeyDictionary()
         self._skip_types = set(skip_types)
+        self._lock = threading.RLock()
 
     def __len__(
         self,
     ) -> int:
-        return len(self._types)
+        with self._lock:
+            return len(self._types)
 
     def __iter__(
         self,
     ) -> Iterator[Any]:
         data = getattr(self._types, 'data', None)
         if isinstance(data, dict):
-            for ref in reversed(tuple(data)):
+            with self._lock:
+                refs = tuple(data)
+            for ref in reversed(refs):
                 type_ = ref()
                 if type_ is not None:
                     yield type_
@@ -1376,7 +1380,8 @@ class WeakTypeCache:
         self,
         type_: Any,
     ) -> bool:
-        return type_ in self._types
+        with self._lock:
+            return type_ in self._types
 
     def add(
         self,
@@ -1391,17 +1396,19 @@ class WeakTypeCache:
             return
         if type_ in self._skip_types:
             return
-        try:
-            del self._types[type_]
-        except KeyError:
-            pass
-        self._types[type_] = None
+        with self._lock:
+            try:
+                del self._types[type_]
+            except KeyError:
+                pass
+            self._types[type_] = None
 
     def clear(
         self,
     ) -> None:
         """Clear the cache, removing all stored types."""
-        self._types.clear()
+        with self._lock:
+            self._types.clear()
 
 
 def is_missing(
-- 
2.43.0


From a75deaa65d26b5a7fc05844cb647d27cc9c97ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 60/99] fix: allow new caches while the pool is iterated

---
 marsh/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 036e9b3..9dd4e48 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -816,7 +816,7 @@ class CachePool(Mapping[str, CacheType]):
     def __iter__(
         self,
     ) -> Iterator[str]:
-        yield from self._caches
+        yield from tuple(self._caches)
 
     def __len__(
         self,
@@ -929,7 +929,7 @@ class CachePool(Mapping[str, CacheType]):
         it only calls the ``clear_cache()`` function on
         each cache.
         """
-        for cache in self._caches.values():
+        for cache in tuple(self._caches.values()):
             cache.cache_clear()
 
     def cache_info(
@@ -945,21 +945,21 @@ class CachePool(Mapping[str, CacheType]):
         return {
             name: cache.cache_info()
             for name, cache
-            in self._caches.items()
+            in tuple(self._caches.items())
         }
 
     def cache_disable(
         self,
     ) -> None:
         """Disable all caches in this container."""
-        for cache in self._caches.values():
+        for cache in tuple(self._caches.values()):
             cache.cache_disable()
 
     def cache_enable(
         self,
     ) -> None:
         """Enable all caches in this container."""
-        for cache in self._caches.values():
+        for cache in tuple(self._caches.values()):
             cache.cache_enable()
 
 
-- 
2.43.0


From 33dde677ab207bb216404a8a873f0104a8f140ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 61/99] fix: construct a singleton once when several threads
 ask for it

---
 marsh/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 9dd4e48..46bed39 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -218,15 +218,18 @@ class SingletonMeta(type):
     _instances: MutableMapping[Type[Any], Any] = \
         weakref.WeakKeyDictionary()
 
+    _lock = threading.RLock()
+
     def __call__(
         cls,
         *args,
         **kwargs,
     ) -> None:
         meta = type(cls)
-        if cls not in meta._instances:
-            meta._instances[cls] = super().__call__(*args, **kwargs)
-        return meta._instances[cls]
+        with meta._lock:
+            if cls not in meta._instances:
+                meta._instances[cls] = super().__call__(*args, **kwargs)
+            return meta._instances[cls]
 
 
 class _CacheInfoInputType(Protocol):
-- 
2.43.0


From 0624cea51c098ae4329c70e882059ca64455b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 62/99] fix: do not cache results of calls that began before
 the cache was cleared

---
 marsh/utils.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 46bed39..c8315cc 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -457,7 +457,20 @@ def cache(
 
         else:
             raise ValueError(f'unexpected `binding` value: {binding}')
-        cached_func = functools.lru_cache(maxsize=maxsize, typed=typed)(cached_func)
+
+        uncached_func = cached_func
+
+        def cache_clear() -> None:
+            # a new cache is used instead of clearing the current one,
+            # otherwise calls that are in progress would store results
+            # from before the cache was cleared.
+            nonlocal cached_func
+            cached_func = functools.lru_cache(maxsize=maxsize, typed=typed)(uncached_func)
+
+        def cache_info():
+            return cached_func.cache_info()
+
+        cache_clear()
         if safe:
             unsafe_delegating_func = delegating_func
 
@@ -469,8 +482,8 @@ def cache(
 
         wrapped_func = functools.wraps(func)(delegating_func)
         wrapped_func.__wrapped__ = func  # type: ignore
-        wrapped_func.cache_clear = cached_func.cache_clear  # type: ignore
-        wrapped_func.cache_info = cached_func.cache_info  # type: ignore
+        wrapped_func.cache_clear = cache_clear  # type: ignore
+        wrapped_func.cache_info = cache_info  # type: ignore
         wrapped_func.cache_disable = cache_disable  # type: ignore
         wrapped_func.cache_enable = cache_enable  # type: ignore
         return wrapped_func
-- 
2.43.0


From b4c7bfa53ec37be72bcc8aa9101c3dc12e6c553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 63/99] fix: do not give a reference to a schema in progress to
 other threads

---
 marsh/schema/core/unmarshal.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index de0d7e1..2b03b46 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -265,7 +265,7 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             return type(object).__call__(cls, value, *args, **kwargs)
         metacls: 'UnmarshalSchemaMeta' = type(cls)
         value = resolve_type(value, cache=metacls.type_cache)
-        if marsh.utils.is_union(value):
+        if marsh.utils.is_union(value) or cls._is_building(value):
             return cls._build(
                 value=value,
                 *args,
@@ -285,6 +285,16 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             **kwargs,
         )
 
+    def _is_building(
+        cls,  # noqa: B902
+        value,
+    ) -> bool:
+        try:
+            cls._recursive_cache[threading.get_ident()][value]
+        except KeyError:
+            return False
+        return True
+
     def _build(
         cls,  # noqa: B902
         value,
-- 
2.43.0


From f3d96c00b2a2603fc3dbf3a30a4d126ed162f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 64/99] fix: allow registrations while namespaces are searched

---
 marsh/schema/namespace.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index a1961d7..90eb695 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -155,7 +155,7 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
     def __iter__(
         self,
     ) -> Iterator[str]:
-        yield from self._namespaces
+        yield from tuple(self._namespaces)
 
     def find_subclasses_iter(
         self,
@@ -173,7 +173,7 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         Returns:
             Iterator of result.
         """
-        for namespace in self.values():
+        for namespace in tuple(self._namespaces.values()):
             for name in namespace.find_subclasses(cls):
                 yield name, namespace
 
@@ -192,7 +192,7 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         Returns:
             Iterator of result.
         """
-        for namespace in self._namespaces.values():
+        for namespace in tuple(self._namespaces.values()):
             try:
                 if issubclass(cls, namespace.base):
                     yield namespace
@@ -244,7 +244,7 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         self.find_subclasses.cache_clear()  # type: ignore
         self.find_namespaces.cache_clear()  # type: ignore
         if full:
-            for namespace in self._namespaces.values():
+            for namespace in tuple(self._namespaces.values()):
                 namespace.cache_clear()
 
     @overload
@@ -286,7 +286,7 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         )
         if full:
             names = {}
-            for name, namespace in self.items():
+            for name, namespace in tuple(self._namespaces.items()):
                 names[name] = namespace.cache_info()
             info['names'] = names
         return info  # type: ignore
@@ -309,7 +309,7 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         Returns:
             A name if found, else :data:`None`.
         """
-        for namespace in reversed(self._namespaces.values()):
+        for namespace in reversed(tuple(self._namespaces.values())):
             if (name := namespace.find_class(cls)):
                 return name
         return None
@@ -429,7 +429,7 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
     def __iter__(
         self,
     ) -> Iterator[str]:
-        yield from self.components
+        yield from tuple(self.components)
 
     def __len__(
         self,
@@ -477,7 +477,7 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
         """
         if not issubclass(cls, self.base):
             return None
-        for name, component in self.components.items():
+        for name, component in tuple(self.components.items()):
             if component == cls:
                 return name
         return None
@@ -498,7 +498,7 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
         Returns:
             Iterator of string names.
         """
-        for name, component in self.components.items():
+        for name, component in tuple(self.components.items()):
             try:
                 if issubclass(component, cls):
                     yield name
-- 
2.43.0


From 392eec8aa7bf2c73f87863b86f345f909d9fbddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 65/99] fix: reject nan where a positive, negative or unsigned
 number is required

---
 marsh/annotation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/annotation.py b/marsh/annotation.py
index 227dd11..d11c3fd 100644
--- a/marsh/annotation.py
+++ b/marsh/annotation.py
@@ -91,7 +91,7 @@ class Positive(Annotation):
         self,
         value: _NumberType,
     ) -> _NumberType:
-        if value <= 0:  # type: ignore
+        if not value > 0:  # type: ignore
             raise ValueError(
                 f'positive value required, got {value}',
             )
@@ -105,7 +105,7 @@ class Negative(Annotation):
         self,
         value: _NumberType,
     ) -> _NumberType:
-        if value >= 0:  # type: ignore
+        if not value < 0:  # type: ignore
             raise ValueError(
                 f'negative value required, got {value}',
             )
@@ -119,7 +119,7 @@ class Unsigned(Annotation):
         self,
         value: _NumberType,
     ) -> _NumberType:
-        if value < 0:  # type: ignore
+        if not value >= 0:  # type: ignore
             raise ValueError(
                 f'unsigned value required, got {value}',
             )
-- 
2.43.0


From 8ebfa1a6848196f47c4c04888c9593f4a22170da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 66/99] fix: accept unhashable types that can not be compared

---
 marsh/utils.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index c8315cc..7a26db2 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -583,7 +583,7 @@ class SafeDict(MutableMapping[_K, _V]):
             return self._hashable_cache[key]
         except TypeError:
             for k, v in reversed(self._unhashable_cache):
-                if k == key:
+                if self._same_key(k, key):
                     return v
         raise KeyError(key)
 
@@ -606,7 +606,7 @@ class SafeDict(MutableMapping[_K, _V]):
             if not self._unhashable_cache:
                 self._order = [(True, i) for i in range(len(self._hashable_cache))]
             for i, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
-                if k == key:
+                if self._same_key(k, key):
                     self._unhashable_cache[-i] = (k, value)
                     break
             else:
@@ -631,12 +631,24 @@ class SafeDict(MutableMapping[_K, _V]):
                 return
         except TypeError:
             for key_idx, (k, _) in enumerate(self._unhashable_cache):
-                if k == key:
+                if self._same_key(k, key):
                     self._unhashable_cache.pop(key_idx)
                     self._remove_from_order(False, key_idx)
                     return
         raise KeyError(key)
 
+    @staticmethod
+    def _same_key(
+        first: Any,
+        second: Any,
+    ) -> bool:
+        try:
+            return first is second or bool(first == second)
+        except TypeError:
+            # some types (e.g. unions) need to be hashable
+            # to be compared.
+            return False
+
     def _remove_from_order(
         self,
         hashable: bool,
-- 
2.43.0


From 13536672dc6d2e1061abdd0da427b01328049ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 67/99] fix: show the names of a namespace in the help

---
 marsh/schema/types/namespace.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/marsh/schema/types/namespace.py b/marsh/schema/types/namespace.py
index 117cd62..dd9a3ed 100644
--- a/marsh/schema/types/namespace.py
+++ b/marsh/schema/types/namespace.py
@@ -1,3 +1,4 @@
+import dataclasses
 from typing import (
     Any,
     Sequence,
@@ -89,6 +90,15 @@ class NamespaceUnmarshalSchema(marsh.schema.core.unmarshal.WrapperUnmarshalSchem
             },
         )
 
+    def doc(
+        self,
+        depth: int = 0,
+    ) -> marsh.schema.UnmarshalSchema.Doc:
+        return dataclasses.replace(
+            super().doc(depth),
+            special_fields=self.doc_special_fields(),
+        )
+
     def doc_special_fields(
         self,
     ) -> Sequence[marsh.schema.UnmarshalSchema.Doc.SpecialField]:
-- 
2.43.0


From fc0629dfd8028d62bd045d4899a08e100bfbb6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 68/99] fix: show empty defaults in the help

---
 marsh/doc/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/doc/terminal.py b/marsh/doc/terminal.py
index 2688e9d..721376d 100644
--- a/marsh/doc/terminal.py
+++ b/marsh/doc/terminal.py
@@ -86,7 +86,7 @@ def format_unmarshal_fields(
             value = name
             if field.type:
                 value = f'{value}: {field.type}'
-            if field.doc.default:
+            if field.doc.default is not None:
                 value = f'{value} = {field.doc.default}'
             fields.append(
                 format_terminal_value(
-- 
2.43.0


From 147ac0dfc8665f67a444dac7716ddba42ff53465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 69/99] fix: find descriptions of attributes of indented
 classes

---
 marsh/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 7a26db2..62e846c 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -9,6 +9,7 @@ import inspect
 import os
 import shutil
 import sys
+import textwrap
 import threading
 import weakref
 import types
@@ -2427,7 +2428,8 @@ def _get_attribute_description(
         except Exception:
             pass
     try:
-        ast_body = ast.parse(inspect.getsource(cls)).body[0].body  # type: ignore
+        source = textwrap.dedent(inspect.getsource(cls))
+        ast_body = ast.parse(source).body[0].body  # type: ignore
     except Exception:
         return None
     node_iter = iter(ast_body)
-- 
2.43.0


From b04d89a22316722704aa5be7e699ad8b67654400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 70/99] fix: do not describe dataclasses by any generated
 docstring

---
 marsh/schema/types/dataclass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 695ab5d..2d5188f 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -40,8 +40,9 @@ def is_generated_class_docstring(
     if docstring:
         return bool(
             re.match(
-                r'^[a-zA-Z0-9_]+\(([a-zA-Z0-9_]+: .+( = .+)?)*\)$',
+                r'^\w+\((\*, )?(\w+: .+( = .+)?)*\)$',
                 docstring,
+                re.DOTALL,
             ),
         )
     return False
-- 
2.43.0


From 6619ed3e0fb78adbd5ad2d4b384c00e7b00381ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 71/99] fix: keep the first line of a description within the
 width

---
 marsh/doc/terminal.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/marsh/doc/terminal.py b/marsh/doc/terminal.py
index 721376d..4710fe2 100644
--- a/marsh/doc/terminal.py
+++ b/marsh/doc/terminal.py
@@ -44,18 +44,18 @@ def format_terminal_value(
     if not description:
         return value
     fill_indent = ' ' * description_indent
-    fill_init_indent = fill_indent
     value_len = len(value.split('\n')[-1])
-    if description_indent - value_len >= description_margin:
-        fill_init_indent = fill_indent[value_len:]
-    else:
-        value = f'{value}\n'
     description = textwrap.fill(
         text=description,
         width=width,
-        initial_indent=fill_init_indent,
+        initial_indent=fill_indent,
         subsequent_indent=fill_indent,
     )
+    if description_indent - value_len >= description_margin:
+        # start on the same line as the value
+        description = description[value_len:]
+    else:
+        value = f'{value}\n'
     return f'{value}{description}'
 
 
-- 
2.43.0


From 76d10226c5c384468002ab13613f7491c4074c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 72/99] fix: keep optional keys of typed dicts without default
 in the help (reverts fc0629d)

---
 marsh/doc/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/doc/terminal.py b/marsh/doc/terminal.py
index 4710fe2..e85eeb3 100644
--- a/marsh/doc/terminal.py
+++ b/marsh/doc/terminal.py
@@ -86,7 +86,7 @@ def format_unmarshal_fields(
             value = name
             if field.type:
                 value = f'{value}: {field.type}'
-            if field.doc.default is not None:
+            if field.doc.default:
                 value = f'{value} = {field.doc.default}'
             fields.append(
                 format_terminal_value(
-- 
2.43.0


From 756cbac7d49a2a20109aa056e41e10c8282c05f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 73/99] fix: select the own fields of a type with a namespace

---
 marsh/schema/types/namespace.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/types/namespace.py b/marsh/schema/types/namespace.py
index dd9a3ed..57d2db2 100644
--- a/marsh/schema/types/namespace.py
+++ b/marsh/schema/types/namespace.py
@@ -120,10 +120,15 @@ class NamespaceUnmarshalSchema(marsh.schema.core.unmarshal.WrapperUnmarshalSchem
     ) -> marsh.schema.UnmarshalSchema:
         if not path:
             return self
-        field, path = marsh.path.head(path)
+        field, nested_path = marsh.path.head(path)
         for name, namespace in self.namespaces.find_subclasses(self.value):
             if name == field:
-                return namespace[name].select(path)
+                return namespace[name].select(nested_path)
+        try:
+            # fields that are used when no name is given
+            return self.schema.select(path)
+        except marsh.errors.PathError:
+            pass
         raise marsh.errors.PathError(
             marsh.utils.get_closest_error_message(
                 field,
-- 
2.43.0


From a47a04c698956a8ca5acdb675423de916e0225b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 74/99] fix: a missing key of a default dictionary of strings
 gives an empty string

---
 marsh/schema/types/defaultdict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/defaultdict.py b/marsh/schema/types/defaultdict.py
index 8ab3c0b..63526dc 100644
--- a/marsh/schema/types/defaultdict.py
+++ b/marsh/schema/types/defaultdict.py
@@ -30,7 +30,7 @@ class InitType(Generic[_T]):
     ) -> _T:
         if self.input is not self._sentinel:
             return self.schema.unmarshal(self.input)
-        for element in (marsh.MISSING, 0, '', None):
+        for element in (marsh.MISSING, '', 0, None):
             try:
                 value = self.schema.unmarshal(element)
             except Exception:
-- 
2.43.0


From cb8de7ff34d36ad56fbe87dbd0c1a93238d2ecea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 75/99] fix: unmarshal subclasses of bytes, complex, dates and
 default dictionaries as themselves

---
 marsh/schema/types/bytes.py       |  2 +-
 marsh/schema/types/complex.py     | 19 +++++++++++++----
 marsh/schema/types/datetime.py    | 34 +++++++++++++++++++++++--------
 marsh/schema/types/defaultdict.py |  2 +-
 4 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/marsh/schema/types/bytes.py b/marsh/schema/types/bytes.py
index b44bb9f..1089f4a 100644
--- a/marsh/schema/types/bytes.py
+++ b/marsh/schema/types/bytes.py
@@ -93,7 +93,7 @@ class BytesUnmarshalSchema(marsh.schema.UnmarshalSchema[bytes]):
                 type=self.value,
             )
         try:
-            return marsh.utils.base64_to_bytes(str(element))
+            return self.value(marsh.utils.base64_to_bytes(str(element)))
         except Exception:
             raise marsh.errors.UnmarshalError(
                 'failed to unmarshal bytes',
diff --git a/marsh/schema/types/complex.py b/marsh/schema/types/complex.py
index 17d073d..9da019a 100644
--- a/marsh/schema/types/complex.py
+++ b/marsh/schema/types/complex.py
@@ -125,7 +125,18 @@ class ComplexUnmarshalSchema(marsh.schema.UnmarshalSchema[complex]):
                 type=self.value,
             )
         if isinstance(arg, float):
-            return complex(arg)
-        if marsh.utils.is_sequence(arg):
-            return complex(*arg)
-        return complex(**arg)  # type: ignore
+            value = complex(arg)
+        elif marsh.utils.is_sequence(arg):
+            value = complex(*arg)
+        else:
+            value = complex(**arg)  # type: ignore
+        if self.value in (complex, numbers.Complex):
+            return value
+        try:
+            return self.value(value)
+        except Exception as err:
+            raise marsh.errors.UnmarshalError(
+                f'failed to construct: {err}',
+                element=element,
+                type=self.value,
+            ) from err
diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index 17eca1f..d6653a6 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -1,7 +1,6 @@
 import datetime
 from typing import (
     Any,
-    Optional,
     Union,
 )
 
@@ -130,7 +129,7 @@ class DatetimeUnmarshalSchema(
                 element=element,
                 type=self.value,
             ) from err
-        dt: Optional[datetime.datetime] = None
+        dt: Union[datetime.datetime, datetime.time, None] = None
         try:
             ts = marsh.utils.cast_primitive(float, str(element))
             dt = datetime.datetime.fromtimestamp(
@@ -140,9 +139,10 @@ class DatetimeUnmarshalSchema(
         except (ValueError, OverflowError, OSError):
             if isinstance(element, str):
                 try:
-                    if self.value == datetime.time:
-                        return datetime.time.fromisoformat(element)
-                    dt = datetime.datetime.fromisoformat(element)
+                    if issubclass(self.value, datetime.time):
+                        dt = datetime.time.fromisoformat(element)
+                    else:
+                        dt = datetime.datetime.fromisoformat(element)
                 except ValueError:
                     dt = dateparser.parse(element, settings={'DATE_ORDER': 'DMY'})
         if dt is None:
@@ -151,7 +151,23 @@ class DatetimeUnmarshalSchema(
                 element=element,
                 type=self.value,
             )
-        if self.value == datetime.time:
-            return dt.time()
-        # datetime is subclass of date
-        return dt
+        if isinstance(dt, datetime.datetime):
+            if issubclass(self.value, datetime.time):
+                dt = dt.time()
+            elif (
+                # datetime is subclass of date
+                self.value is not datetime.date
+                and not issubclass(self.value, datetime.datetime)
+            ):
+                dt = dt.date()
+        if isinstance(dt, self.value):
+            return dt
+        try:
+            # a subclass
+            return self.value.fromisoformat(dt.isoformat())
+        except Exception as err:
+            raise marsh.errors.UnmarshalError(
+                f'failed to unmarshal: {err}',
+                element=element,
+                type=self.value,
+            ) from err
diff --git a/marsh/schema/types/defaultdict.py b/marsh/schema/types/defaultdict.py
index 63526dc..e801b7e 100644
--- a/marsh/schema/types/defaultdict.py
+++ b/marsh/schema/types/defaultdict.py
@@ -93,4 +93,4 @@ class DefaultDictUnmarshalSchema(
         self,
         value: Mapping[Any, Any],
     ) -> collections.defaultdict:
-        return collections.defaultdict(self.initializer, value)
+        return marsh.utils.get_type(self.value)(self.initializer, value)
-- 
2.43.0


From 6b11ada3637fc8eba659fe49e434ac8905427845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 76/99] fix: generic classes of mappings and sequences do not
 recurse without end

---
 marsh/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 62e846c..2e8e60d 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1490,7 +1490,9 @@ def is_sequence_type(
     Returns:
         ``True`` if value is a sequence type, else ``False``.
     """
-    if (origin := get_origin(value)) is not None:
+    origin = get_origin(value)
+    # typing.Generic is its own origin
+    if origin is not None and origin is not value:
         return is_sequence_type(origin)
     try:
         return (
@@ -1587,7 +1589,9 @@ def is_mapping_type(
     Returns:
         ``True`` if value is a mapping, else ``False``.
     """
-    if (origin := get_origin(value)) is not None:
+    origin = get_origin(value)
+    # typing.Generic is its own origin
+    if origin is not None and origin is not value:
         return is_mapping_type(origin)
     try:
         return (
@@ -2037,7 +2041,9 @@ def get_type(
     Returns:
         The type.
     """
-    if (origin := get_origin(value)) is not None:
+    origin = get_origin(value)
+    # typing.Generic is its own origin
+    if origin is not None and origin is not value:
         return get_type(origin)
     if is_typing_alias(value):
         return value
-- 
2.43.0


From 33db835c80ac635085c63ea7b07194307796cdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 77/99] fix: read the items of a subclass of a typed set as
 their type

---
 marsh/schema/types/set.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/marsh/schema/types/set.py b/marsh/schema/types/set.py
index 1e466b3..3343aea 100644
--- a/marsh/schema/types/set.py
+++ b/marsh/schema/types/set.py
@@ -1,5 +1,6 @@
 from typing import (
     Any,
+    TypeVar,
     get_args,
     get_origin,
 )
@@ -20,6 +21,14 @@ class SetUnmarshalSchema(sequence.SequenceUnmarshalSchema):
         type_ = Any
         if (_args := get_args(self.value)):
             type_ = _args[0]
+        else:
+            for base in getattr(self.value, '__orig_bases__', ()):
+                _args = get_args(base)
+                if (
+                    get_origin(base) is set
+                    and not isinstance(_args[0], TypeVar)
+                ):
+                    type_ = _args[0]
         self.value_schema = marsh.schema.UnmarshalSchema(type_)
 
     @classmethod
-- 
2.43.0


From 224612755bfbeeb7e6e720857957ffee6ab9d351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 78/99] fix: unmarshal a dataclass that is a mapping or
 sequence by its fields

---
 marsh/schema/types/dataclass.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 2d5188f..f629d94 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -9,6 +9,10 @@ from typing import (
 )
 
 import marsh
+from . import (
+    mapping,
+    sequence,
+)
 
 
 _T = TypeVar('_T')
@@ -85,7 +89,12 @@ class DataclassMarshalSchema(marsh.schema.MarshalSchema):
         }
 
 
-@marsh.schema.register
+@marsh.schema.register(
+    lower_priority=(
+        mapping.MappingUnmarshalSchema,
+        sequence.SequenceUnmarshalSchema,
+    ),
+)
 class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_T]):
 
     def __init__(
-- 
2.43.0


From b5304b0023a707d965c3aba979f23523e203034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 79/99] fix: select and marshal members of an enum that mixes
 in a primitive type by name

---
 marsh/schema/types/enum.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/marsh/schema/types/enum.py b/marsh/schema/types/enum.py
index 8c75981..7a1a579 100644
--- a/marsh/schema/types/enum.py
+++ b/marsh/schema/types/enum.py
@@ -5,13 +5,21 @@ from typing import (
 )
 
 import marsh
-from . import sequence
+from . import (
+    primitive,
+    sequence,
+)
 
 
 _E = TypeVar('_E', bound=enum.Enum)
 
 
-@marsh.schema.register(lower_priority=sequence.SequenceUnmarshalSchema)
+@marsh.schema.register(
+    lower_priority=(
+        primitive.PrimitiveUnmarshalSchema,
+        sequence.SequenceUnmarshalSchema,
+    ),
+)
 class EnumUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_E]):
 
     def __init__(
@@ -28,7 +36,11 @@ class EnumUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_E]):
         value: Any,
     ) -> bool:
         try:
-            return issubclass(value, enum.Enum)
+            return (
+                issubclass(value, enum.Enum)
+                # combinations of flags have no name
+                and not issubclass(value, enum.IntFlag)
+            )
         except Exception:
             return False
 
@@ -62,7 +74,7 @@ class EnumUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_E]):
         return super().unmarshal(element)
 
 
-@marsh.schema.register
+@marsh.schema.register(lower_priority=primitive.PrimitiveMarshalSchema)
 class EnumValueMarshalSchema(marsh.schema.MarshalSchema):
 
     value: enum.Enum
@@ -73,7 +85,10 @@ class EnumValueMarshalSchema(marsh.schema.MarshalSchema):
         value: Any,
     ) -> bool:
         try:
-            return isinstance(value, enum.Enum)
+            return (
+                isinstance(value, enum.Enum)
+                and not isinstance(value, enum.IntFlag)
+            )
         except Exception:
             return False
 
-- 
2.43.0


From bbf556b1921c1be16147af4f277589c9d3ac2d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 80/99] fix: find a member of an enum by any of its names

---
 marsh/schema/types/enum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/types/enum.py b/marsh/schema/types/enum.py
index 7a1a579..2f428a8 100644
--- a/marsh/schema/types/enum.py
+++ b/marsh/schema/types/enum.py
@@ -65,10 +65,10 @@ class EnumUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_E]):
             marsh.utils.is_primitive(element)
             and not marsh.utils.is_missing(element)
         ):
-            for schema in self.schemas:
+            for name, member in self.value.__members__.items():
                 try:
-                    marsh.utils.cast_literal(schema.value.name, element)
-                    return schema.value
+                    marsh.utils.cast_literal(name, element)
+                    return member
                 except ValueError:
                     pass
         return super().unmarshal(element)
-- 
2.43.0


From 308fc7412067306768d2667d4c8fdf52e1b4470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:08 +0000
Subject: [PATCH 81/99] fix: text of dates that can not be parsed in the local
 time zone is an unmarshal error

---
 marsh/schema/types/datetime.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index d6653a6..f4717a8 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -144,7 +144,18 @@ class DatetimeUnmarshalSchema(
                     else:
                         dt = datetime.datetime.fromisoformat(element)
                 except ValueError:
-                    dt = dateparser.parse(element, settings={'DATE_ORDER': 'DMY'})
+                    try:
+                        dt = dateparser.parse(
+                            element,
+                            settings={'DATE_ORDER': 'DMY'},
+                        )
+                    except Exception as err:
+                        # e.g. a local time zone it does not know
+                        raise marsh.errors.UnmarshalError(
+                            f'failed to parse timestamp: {err}',
+                            element=element,
+                            type=self.value,
+                        ) from err
         if dt is None:
             raise marsh.errors.UnmarshalError(
                 'failed to parse timestamp',
-- 
2.43.0


From 95a8b416d7b75ccd9f71ef131a73dcfe98873f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 82/99] fix: print messages about text that can not be encoded

---
 marsh/entry_point.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index fca1ede..1060e8d 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -28,6 +28,15 @@ DESCRIPTION_INDENT = 24
 DESCRIPTION_MARGIN = 4
 
 
+def encodable(
+    text: Any,
+) -> str:
+    """Escape what the output can not encode, such as
+    undecodable bytes of command line arguments."""
+    encoding = getattr(sys.stdout, 'encoding', None) or 'utf-8'
+    return str(text).encode(encoding, 'backslashreplace').decode(encoding)
+
+
 class EntryPoint:
 
     LOGGING_LEVELS = [
@@ -225,7 +234,7 @@ class EntryPoint:
             def handle_create_dir_error(
                 error: Exception,
             ) -> None:
-                print(f'failed to create output directory {path}: {error}')
+                print(encodable(f'failed to create output directory {path}: {error}'))
                 sys.exit(1)
 
             with marsh.errors.maybe_handle_error(handle_create_dir_error, OSError):
@@ -270,7 +279,7 @@ class EntryPoint:
         def handle_select_error(
             error: marsh.errors.MarshError,
         ) -> None:
-            print(f'failed to traverse configuration: {error.pretty()}')
+            print(encodable(f'failed to traverse configuration: {error.pretty()}'))
             sys.exit(1)
 
         with marsh.errors.maybe_handle_error(handle_select_error):
@@ -281,7 +290,7 @@ class EntryPoint:
             depth=self.help_depth,
         )
         if not help_msg:
-            print(f'no help documention available for path: {args.help}')
+            print(encodable(f'no help documention available for path: {args.help}'))
             sys.exit(1)
         print(help_msg)
         sys.exit(0)
@@ -316,7 +325,7 @@ class EntryPoint:
                 message = error.pretty(True)
             else:
                 message = str(error)
-            print(f'failed to load configuration: {message}')
+            print(encodable(f'failed to load configuration: {message}'))
             sys.exit(1)
 
         with marsh.errors.maybe_handle_error(
@@ -338,11 +347,11 @@ class EntryPoint:
                     if cmd_args.config_out == '-':
                         print('stdout', end=': ')
                     else:
-                        print(cmd_args.config_out, end=': ')
+                        print(encodable(cmd_args.config_out), end=': ')
                     if isinstance(error, marsh.errors.MarshError):
-                        print(error.pretty(True))
+                        print(encodable(error.pretty(True)))
                     else:
-                        print(error)
+                        print(encodable(error))
                     sys.exit(1)
 
                 with marsh.errors.maybe_handle_error(
@@ -354,7 +363,7 @@ class EntryPoint:
             def handle_unmarshal_error(
                 error: marsh.errors.MarshError,
             ) -> None:
-                print(f'failed to unmarshal config: {error.pretty(True)}')
+                print(encodable(f'failed to unmarshal config: {error.pretty(True)}'))
                 sys.exit(1)
 
             if isinstance(self.schema, marsh.schema.argument.ArgumentsUnmarshalSchema):
-- 
2.43.0


From 2fe0aebf74ec6cfa041b5aa7600be6ad79eee4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 83/99] fix: reject an output directory whose name can not be
 formatted

---
 marsh/entry_point.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index 1060e8d..f292d5e 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -37,6 +37,17 @@ def encodable(
     return str(text).encode(encoding, 'backslashreplace').decode(encoding)
 
 
+def output_path(
+    text: str,
+) -> str:
+    """Accept the path of an output directory if it can be formatted."""
+    try:
+        datetime.datetime.now(datetime.timezone.utc).strftime(text)
+    except ValueError as error:
+        raise argparse.ArgumentTypeError(f'invalid path: {error}') from error
+    return text
+
+
 class EntryPoint:
 
     LOGGING_LEVELS = [
@@ -134,7 +145,7 @@ class EntryPoint:
         parser.add_argument(
             '-o',
             '--output',
-            type=str,
+            type=output_path,
             nargs='?',
             default=None,
             const='jobs/%Y%m%dT%H%M%S.%fZ',
-- 
2.43.0


From 30977105eac2ba5b71c1af0c7e8b4931cf735553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 84/99] fix: reject an invalid logging format

---
 marsh/entry_point.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index f292d5e..9b5b977 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -48,6 +48,17 @@ def output_path(
     return text
 
 
+def logging_format(
+    text: str,
+) -> str:
+    """Accept the format of log records if it is valid."""
+    try:
+        logging.Formatter(text)
+    except ValueError as error:
+        raise argparse.ArgumentTypeError(f'invalid format: {error}') from error
+    return text
+
+
 class EntryPoint:
 
     LOGGING_LEVELS = [
@@ -190,7 +201,7 @@ class EntryPoint:
 
             parser.add_argument(
                 '--logging-format',
-                type=str,
+                type=logging_format,
                 metavar='FORMAT',
                 help=(
                     'Specify the logging format. '
-- 
2.43.0


From 0cb50408c3d17af1bf856f3c797eb508b87d44e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 85/99] fix: find configs with a dot in their name without
 their extension

---
 marsh/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index ca1f297..1839e47 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -178,7 +178,7 @@ def get_ext(
 def find_config(
     target: str,
 ) -> str:
-    if has_ext(target):
+    if has_ext(target) and config_type_is_supported(target):
         if not os.path.exists(target):
             raise marsh.errors.ConfigFileError(
                 f'could not find config {target} ',
-- 
2.43.0


From 510707421ee2e546ef98f71e095f946e91262818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 86/99] fix: point at the fault in a long text that can not be
 parsed

---
 marsh/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/parse.py b/marsh/parse.py
index 5436207..2590210 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -69,7 +69,7 @@ class ParseError(marsh.errors.MarshError):
         source = self.source
         if index > 35:
             source = f'... {source[index - 35:]}'
-            index = index - 35 + 4
+            index = 35 + len('... ')
         if len(source) > 70:
             source = f'{source[:70]} ...'
         return f'{rep}\n{source}\n{" " * index}^'
-- 
2.43.0


From 88bcf9253717b8c7147497250f6e66acd526e344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 87/99] fix: attributes of the decorated callable do not
 replace those of its entry point

---
 marsh/_functional.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/marsh/_functional.py b/marsh/_functional.py
index d7923d2..73b51d7 100644
--- a/marsh/_functional.py
+++ b/marsh/_functional.py
@@ -267,7 +267,13 @@ def main(
             epilog=epilog,
             help_depth=help_depth,
         )
-        return functools.wraps(fn)(wrapped)
+        functools.update_wrapper(wrapped, fn, updated=())
+        # attributes of the decorated callable are available from the
+        # entry point, without replacing any attribute of its own
+        for name, value in getattr(fn, '__dict__', {}).items():
+            if not hasattr(wrapped, name):
+                setattr(wrapped, name, value)
+        return wrapped
 
     if fn is None:
         return main_decorator
-- 
2.43.0


From 89eb261ceecf49e15adf7aafe3d0dbc17518cab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:36 +0000
Subject: [PATCH 88/99] fix: containers of omegaconf are marshaled into plain
 data at every depth

---
 marsh/schema/types/omegaconf.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/marsh/schema/types/omegaconf.py b/marsh/schema/types/omegaconf.py
index b56e40f..dfb152f 100644
--- a/marsh/schema/types/omegaconf.py
+++ b/marsh/schema/types/omegaconf.py
@@ -1,7 +1,6 @@
 from typing import (
     Any,
     Union,
-    cast,
 )
 
 import omegaconf
@@ -39,8 +38,7 @@ class OmegaconfMarshalSchema(marsh.schema.MarshalSchema):
     def marshal(
         self,
     ) -> marsh.element.ElementType:
-        return cast(
-            marsh.element.ElementType,
+        return marsh.marshal(
             omegaconf.OmegaConf.to_container(
                 self.value,
                 enum_to_str=True,
-- 
2.43.0


From 8632196c64ce6a4a4d06bc1e7e7cb263c622ab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:40 +0000
Subject: [PATCH 89/99] fix: a component which is registered with an empty name
 is marshaled with it

---
 marsh/schema/namespace.py       | 2 +-
 marsh/schema/types/namespace.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index 90eb695..3168191 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -310,7 +310,7 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
             A name if found, else :data:`None`.
         """
         for namespace in reversed(tuple(self._namespaces.values())):
-            if (name := namespace.find_class(cls)):
+            if (name := namespace.find_class(cls)) is not None:
                 return name
         return None
 
diff --git a/marsh/schema/types/namespace.py b/marsh/schema/types/namespace.py
index 57d2db2..02d857e 100644
--- a/marsh/schema/types/namespace.py
+++ b/marsh/schema/types/namespace.py
@@ -33,7 +33,7 @@ class NamespaceMarshalSchema(marsh.schema.core.marshal.WrapperMarshalSchema):
         value: Any,
     ) -> bool:
         try:
-            return bool(cls.namespaces.find_class(marsh.utils.get_type(value)))
+            return cls.namespaces.find_class(marsh.utils.get_type(value)) is not None
         except Exception:
             return False
 
-- 
2.43.0


From af0847a878a152cc4844aac41ecbbdf20c8d75a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:57 +0000
Subject: [PATCH 90/99] fix: arrays and other values that can not be compared
 are no alias and not missing

---
 marsh/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 2e8e60d..f320ebb 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1454,7 +1454,11 @@ def is_missing(
     Returns:
         ``True`` if missing, else ``False``.
     """
-    return value in (omegaconf.MISSING, dataclasses.MISSING)
+    try:
+        return value in (omegaconf.MISSING, dataclasses.MISSING)
+    except Exception:
+        # not comparable, such as an array
+        return False
 
 
 def is_sequence(
@@ -1948,7 +1952,7 @@ def is_literal_string(
     Returns:
         ``True`` if value is a typing.LiteralString, else ``False``.
     """
-    return value in _LiteralStringTypes
+    return any(value is type_ for type_ in _LiteralStringTypes)
 
 
 def is_typing_alias(
@@ -1971,7 +1975,7 @@ def is_typing_alias(
     return (
         get_origin(value) is not None
         or type(value) is getattr(types, 'GenericAlias', None)
-        or value in _TypeAliasTypes
+        or any(value is type_ for type_ in _TypeAliasTypes)
         or hasattr(value, '__class__')
         and (
             value.__class__.__name__.endswith('_GenericAlias')
-- 
2.43.0


From 10362cec0444a751f6cf374c9fb1dfb0cf82cedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:02 +0000
Subject: [PATCH 91/99] fix: helpers see the type which is annotated instead of
 Annotated

---
 marsh/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index f320ebb..c5d4955 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2020,7 +2020,7 @@ def is_optional(
         :data:`None` is in its arguments, else ``False``.
     """
     if is_annotated(type_):
-        type_ = get_origin(type_)
+        type_ = type_.__origin__
     return is_union(type_) \
         and type(None) in get_args(type_)
 
@@ -2078,7 +2078,7 @@ def get_optional_type(
             f'{type_}',
         )
     if is_annotated(type_):
-        type_ = get_origin(type_)
+        type_ = type_.__origin__
     args = []
     for arg in get_args(type_):
         if arg not in (None, type(None)):  # noqa: E721
@@ -2101,7 +2101,7 @@ def get_type_name(
         The string representation of the value.
     """
     if is_annotated(value):
-        value = get_origin(value)
+        value = value.__origin__
     if is_typing_alias(value):
         return str(value).replace('typing.', '')
     return getattr(get_type(value), '__name__', str(value))
@@ -2609,7 +2609,7 @@ def inspect_sequence_type(
     typing.Any
     """
     if is_annotated(sequence_type):
-        sequence_type = get_origin(sequence_type)
+        sequence_type = sequence_type.__origin__
     orig_bases = getattr(
         sequence_type,
         '__orig_bases__',
@@ -2654,7 +2654,7 @@ def inspect_mapping_type(
     (typing.Any, typing.Any)
     """
     if is_annotated(mapping_type):
-        mapping_type = get_origin(mapping_type)
+        mapping_type = mapping_type.__origin__
     orig_bases = getattr(
         mapping_type,
         '__orig_bases__',
-- 
2.43.0


From e6b19b0682e50bb29fd6b828a25df2a43bc1fb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:05 +0000
Subject: [PATCH 92/99] fix: an instance of a subclass of a typed namedtuple is
 a typed namedtuple

---
 marsh/utils.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index c5d4955..633df0d 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1760,13 +1760,7 @@ def is_typed_namedtuple(
     Returns:
         ``True`` if value is a namedtuple, else ``False``.
     """
-    try:
-        return (
-            is_namedtuple(value)
-            and bool(get_type_hints(value))
-        )
-    except TypeError:
-        return False
+    return is_namedtuple(value) and is_typed_namedtuple_type(type(value))
 
 
 def is_typed_namedtuple_type(
-- 
2.43.0


From f1a2173f8bd62b559fb7ecb94031b79c3f630bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 93/99] fix: a number too large for a float raises ValueError
 in cast_primitive

---
 marsh/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 633df0d..373f6cf 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2278,7 +2278,10 @@ def cast_primitive(
     if issubclass(type_, int) and isinstance(value, float):
         return type_(float_to_int(value))
     if issubclass(type_, float):
-        return type_(float(value))
+        try:
+            return type_(float(value))
+        except OverflowError as err:
+            raise ValueError(str(err)) from None
     return type_(value)
 
 
-- 
2.43.0


From e2decaf7da5e2bb750dce0126b53a1279130395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:00 +0000
Subject: [PATCH 94/99] fix: a typed dict keeps the meaning of texts in the
 module they are written in

---
 marsh/utils.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/marsh/utils.py b/marsh/utils.py
index 373f6cf..d9de5f3 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1698,6 +1698,23 @@ def resolve_type_hints(
     Returns:
         The annotations by name.
     """
+    if is_typeddict_type(value):
+        # has no bases to inherit annotations from, it copies them.
+        hints = typing_extensions.get_type_hints(
+            value,
+            localns={},
+            include_extras=True,
+        )
+        for base in getattr(value, '__orig_bases__', ()):
+            base = get_type(base)
+            if is_typeddict_type(base):
+                hints.update({
+                    name: hint
+                    for name, hint in resolve_type_hints(base).items()
+                    if value.__annotations__[name]
+                    is base.__annotations__[name]
+                })
+        return hints
     if inspect.isclass(value):
         hints = typing_extensions.get_type_hints(value, include_extras=True)
         for name, hint in hints.items():
-- 
2.43.0


From c8ecee2ea1135b15cdf2589db1504f77dd827945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:04 +0000
Subject: [PATCH 95/99] fix: texts in annotations of __new__, callable objects
 and partial functions are resolved

---
 marsh/schema/template/callable.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index c8c19cc..06bbf69 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -1,7 +1,9 @@
+import functools
 import inspect
 import types
 from typing import (
     Any,
+    Callable,
     ForwardRef,
     TypeVar,
 )
@@ -13,6 +15,25 @@ from . import structured
 _T = TypeVar('_T')
 
 
+def get_annotated(
+    value: Callable,
+) -> Callable:
+    """Get the function that gives a callable its signature."""
+    value = inspect.unwrap(value)
+    if isinstance(value, functools.partial):
+        return get_annotated(value.func)
+    if inspect.isclass(value):
+        return next(
+            getattr(cls, name)
+            for cls in inspect.getmro(value)
+            for name in ('__new__', '__init__')
+            if name in vars(cls)
+        )
+    if inspect.isroutine(value):
+        return value
+    return type(value).__call__
+
+
 class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
     """Unmarshals the arguments to a callable and uses them to call it."""
 
@@ -29,10 +50,9 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
                 f'failed to retrieve callable signature: {self.value}',
             )
         try:
-            if inspect.isclass(self.value):
-                annotations = marsh.utils.resolve_type_hints(self.value.__init__)
-            else:
-                annotations = marsh.utils.resolve_type_hints(self.value)
+            annotations = marsh.utils.resolve_type_hints(
+                get_annotated(self.value),
+            )
         except Exception:
             annotations = {}
         positional = {}
-- 
2.43.0


From 0344a51b6a99131ae213186429f8ccc4e2c00ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:10 +0000
Subject: [PATCH 96/99] fix: the bound of a type variable is looked up in its
 own module

---
 marsh/schema/types/typevar.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/types/typevar.py b/marsh/schema/types/typevar.py
index 782fd83..f67676b 100644
--- a/marsh/schema/types/typevar.py
+++ b/marsh/schema/types/typevar.py
@@ -1,3 +1,5 @@
+import sys
+import types
 from typing import (
     Any,
     Mapping,
@@ -8,6 +10,8 @@ from typing import (
 )
 
 
+import typing_extensions
+
 import marsh
 
 
@@ -72,11 +76,21 @@ class TypeVarUnmarshalSchema(marsh.schema.UnmarshalSchema[Any]):
     def resolve_type(
         self,
     ) -> Any:
+        type_ = self.value.__bound__
         if self.value.__constraints__:
-            if len(self.value.__constraints__) == 1:
-                return self.value.__constraints__[0]
-            return Union[self.value.__constraints__]  # pyright: ignore
-        return self.value.__bound__
+            type_ = Union[self.value.__constraints__]  # pyright: ignore
+        if marsh.utils.has_forward_reference(type_):
+            try:
+                # names are those of the module of the type variable
+                return typing_extensions.get_type_hints(
+                    types.SimpleNamespace(__annotations__={'type': type_}),
+                    vars(sys.modules[self.value.__module__]),
+                    {},
+                    include_extras=True,
+                )['type']
+            except Exception:
+                pass
+        return type_
 
     def select(
         self,
-- 
2.43.0


From 370d8a18aa6084febe9c3f802c25fe9c958640e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:14 +0000
Subject: [PATCH 97/99] fix: a reference to a nested class names its module and
 class

---
 marsh/schema/core/unmarshal.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 2b03b46..8482159 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -50,9 +50,14 @@ def resolve_forward_ref(
     mod = ''
     if '.' in name:
         mod, _, name = name.rpartition('.')
-    if mod:
+    # the module is followed by the name of a type, which may be nested
+    parts = expr.split('.')
+    for i in range(len(parts) - 1, 0, -1):
         try:
-            return eval(name, dict(vars(importlib.import_module(mod))))
+            return eval(
+                '.'.join(parts[i:]),
+                dict(vars(importlib.import_module('.'.join(parts[:i])))),
+            )
         except Exception:
             pass
     for type_ in cache:
-- 
2.43.0


From 6715b5dd737a30f6904072a914f7d75e1355d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:17 +0000
Subject: [PATCH 98/99] fix: find causes that were raised from an earlier error
 in catch_cause

---
 marsh/testing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marsh/testing.py b/marsh/testing.py
index d3ea0e7..ed63821 100644
--- a/marsh/testing.py
+++ b/marsh/testing.py
@@ -45,7 +45,11 @@ def catch_cause(
             if isinstance(inner_exc, cause):
                 return
             exception_chain.append(inner_exc.__class__.__name__)
-            inner_exc = inner_exc.__context__
+            inner_exc = (
+                inner_exc.__context__
+                if inner_exc.__cause__ is None
+                else inner_exc.__cause__
+            )
         raise AssertionError(
             f'expected an exception of type {cause} '
             f'as cause, got {tuple(exception_chain)}',
-- 
2.43.0


From 312eedbebde97d1cff1bcb961db9c63fd36ddf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:35 +0000
Subject: [PATCH 99/99] fix: name the level of a logger as the place of the
 error if it is invalid

---
 marsh/schema/types/logger.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/types/logger.py b/marsh/schema/types/logger.py
index 8bad6a9..fcf4990 100644
--- a/marsh/schema/types/logger.py
+++ b/marsh/schema/types/logger.py
@@ -122,7 +122,8 @@ class LoggerUnmarshalSchema(marsh.schema.UnmarshalSchema[logging.Logger]):
             except Exception:
                 raise marsh.errors.UnmarshalError(
                     f'could not set logging level to "{arg["level"]}"',
-                    element=element,
-                    type=type,
+                    path='level',
+                    element=arg['level'],
+                    type=Union[int, str],
                 )
         return logger
-- 
2.43.0

