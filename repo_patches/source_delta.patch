From 8910aee970ddcea5c0777227a50844d9d2c5d2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:50 +0000
Subject: [PATCH 01/17] fix: quote characters inside of references have to be
 doubled

---
 sqlpuzzle/_backends/sql.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sqlpuzzle/_backends/sql.py b/sqlpuzzle/_backends/sql.py
index 70bca71..54ad27a 100644
--- a/sqlpuzzle/_backends/sql.py
+++ b/sqlpuzzle/_backends/sql.py
@@ -39,9 +39,14 @@ class SqlBackend:
         """
         from sqlpuzzle._common.utils import force_text
         value = force_text(value)
-        parts = re.split(r'{quote}([^{quote}]+){quote}|\.'.format(quote=cls.reference_quote), value)
-        parts = ('{quote}{i}{quote}'.format(quote=cls.reference_quote, i=i) if i != '*' else i for i in parts if i)
-        return '.'.join(parts)
+        quote = cls.reference_quote
+        parts = re.split(r'{quote}((?:[^{quote}]|{quote}{quote})+){quote}|\.'.format(quote=quote), value)
+        # Already quoted parts are at odd positions and have doubled quotes inside.
+        names = (part.replace(quote * 2, quote) if i % 2 else part for i, part in enumerate(parts) if part)
+        return '.'.join(
+            '{quote}{name}{quote}'.format(quote=quote, name=name.replace(quote, quote * 2)) if name != '*' else name
+            for name in names
+        )
 
     @classmethod
     def bytes(cls, value):
-- 
2.43.0


From 19a0ebc8b58f789a030bd32a62379929b5ce2a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:52 +0000
Subject: [PATCH 02/17] fix: value recognized as reference is rendered without
 surrounding whitespace

---
 sqlpuzzle/_common/sqlvalue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 9332a8b..c62ceca 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -84,7 +84,7 @@ class SqlValue(Object):
     def _string(self):
         # Sometimes, e.g. in subselect, is needed reference to column instead of self.value.
         if get_backend().is_reference(self.value):
-            return self._reference()
+            return get_backend().reference(self.value.strip())
         return "'{}'".format(_escape_value(force_text(self.value)))
 
     def _bytes(self):
-- 
2.43.0


From 755145f157e131ec78cbd4f8326b6834efd49a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:54 +0000
Subject: [PATCH 03/17] fix: conditions passed by kwds together with Q objects
 were ignored

---
 sqlpuzzle/_queryparts/conditions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 8a7a494..9a1ae9d 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -109,9 +109,9 @@ class Conditions(BinaryOperationMixin, QueryParts):
         if args and all(isinstance(item, (Conditions, ConditionsOfConditions)) for item in args):
             for item in args:
                 self.append_unique_part(item)
-        else:
-            for column_name, value in parse_args(options, *args, **kwds):
-                self.append_unique_part(self._condition_class(column_name, value))
+            args = ()
+        for column_name, value in parse_args(options, *args, **kwds):
+            self.append_unique_part(self._condition_class(column_name, value))
 
         return self
 
-- 
2.43.0


From d0ee0b3550959e11c8df494d9235668e0fc3afbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:55 +0000
Subject: [PATCH 04/17] fix: kwds passed together with dictionary were ignored

---
 sqlpuzzle/_common/argsparser.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 98ca9c5..fb7c5ea 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -66,11 +66,9 @@ class ParserInput:
         return []
 
     @property
-    def dictionary_or_kwds(self):
+    def dictionary(self):
         if self.is_dictionary:
             return self.args[0]
-        if self.is_kwds:
-            return self.kwds
         return {}
 
     @property
@@ -116,7 +114,8 @@ class Parser:
         if self.input_data.is_dictionary or self.input_data.is_kwds:
             if not self.options.allow_dict:
                 raise InvalidArgumentException('Dictionary or kwds is disabled.')
-            self._parse_dictionary(self.input_data.dictionary_or_kwds)
+            self._parse_dictionary(self.input_data.dictionary)
+            self._parse_dictionary(self.input_data.kwds)
 
     def _parse_dictionary(self, dictionary):
         for item in sorted(dictionary.items()):
-- 
2.43.0


From 3584fac46be1b0b8bb1d981183f134bbd6653436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:57 +0000
Subject: [PATCH 05/17] fix: too short items were filled with None instead of
 raising exception

---
 sqlpuzzle/_common/argsparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index fb7c5ea..cfbc576 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -137,6 +137,8 @@ class Parser:
     def _create_batch(self, values):
         if len(values) > self.options.max_items:
             raise InvalidArgumentException('Too many arguments.')
+        if len(values) < self.options.min_items:
+            raise InvalidArgumentException('Too few arguments.')
         return self._append_nones(tuple(values))
 
     def _append_nones(self, tuple_with_values):
-- 
2.43.0


From 0f475b3bd7356c4c8f8328527776fad047054501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:59 +0000
Subject: [PATCH 06/17] fix: rendering of query must not change its joins

---
 sqlpuzzle/_queryparts/tables.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 7637d5a..0653ad3 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -78,13 +78,12 @@ class Table(QueryPart):
             table = force_text(SqlReference(self.table_name))
 
         if self._joins:
-            self._minimize_joins()
             table += ' ' + ' '.join(
                 '{} {}{}'.format(
                     JOIN_TYPES[join['type']],
                     join['table'],
                     ' ON {}'.format(join['ons']) if join['ons'].is_set else '',
-                ) for join in self._joins
+                ) for join in self._minimize_joins()
             )
 
         return table
@@ -156,15 +155,15 @@ class Table(QueryPart):
             if append_new:
                 joins_group.append([join])
 
-        self._joins = []
+        minimized_joins = []
         for joins in joins_group:
             if len(joins) > 1 and any(bool(join['type'] == INNER_JOIN) for join in joins):
-                joins[0]['type'] = INNER_JOIN
-                self._joins.append(joins[0])
+                minimized_joins.append(dict(joins[0], type=INNER_JOIN))
             elif len(joins) > 1 and all(join['type'] == joins[0]['type'] for join in joins):
-                self._joins.append(joins[0])
+                minimized_joins.append(joins[0])
             else:
-                self._joins.extend(joins)
+                minimized_joins.extend(joins)
+        return minimized_joins
 
 
 class Tables(QueryParts):
-- 
2.43.0


From 0049ff9d41fed076f6e9bc30fb4e7c5ba334992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:00 +0000
Subject: [PATCH 07/17] fix: join must not change passed dictionary

---
 sqlpuzzle/_queryparts/tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 0653ad3..dff193a 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -122,7 +122,7 @@ class Table(QueryPart):
         if isinstance(arg, (list, tuple)) and len(arg) == 2:
             table = Table(*arg)
         elif isinstance(arg, dict) and len(arg) == 1:
-            table = Table(*arg.popitem())
+            table = Table(*list(arg.items())[0])
         elif isinstance(arg, str):
             table = Table(arg)
         else:
-- 
2.43.0


From 9424cae552c28898b27da806a2acf822829fc656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:02 +0000
Subject: [PATCH 08/17] fix: value with generator has to be rendered always the
 same

---
 sqlpuzzle/_common/sqlvalue.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index c62ceca..c813dc1 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -59,7 +59,8 @@ class SqlValue(Object):
             Union: self._subselect,
         }
 
-        self.value = value
+        # Generators give value only once but query can be rendered many times.
+        self.value = list(value) if isinstance(value, types.GeneratorType) else value
 
     def __str__(self):
         convert_method = self._get_convert_method()
-- 
2.43.0


From 9f4d215dc3b531fbcc9e99cc852f6a9fa7755c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:04 +0000
Subject: [PATCH 09/17] fix: invalid type of order has to raise
 InvalidArgumentException

---
 sqlpuzzle/_queryparts/order.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/order.py b/sqlpuzzle/_queryparts/order.py
index afac74f..4f8974d 100644
--- a/sqlpuzzle/_queryparts/order.py
+++ b/sqlpuzzle/_queryparts/order.py
@@ -48,7 +48,7 @@ class Order(QueryPart):
     def sort(self, sort):
         if sort is None:
             sort = ASC
-        sort = sort.upper()
+        sort = str(sort).upper()
         if sort not in (ASC, DESC):
             raise InvalidArgumentException('Type of order can be only {} or {}.'.format(ASC, DESC))
         self._sort = sort
-- 
2.43.0


From 525b6ced3610d273b29f2ceb99a234fe8abf687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:05 +0000
Subject: [PATCH 10/17] fix: string and SQL object with the same text are not
 the same part of query

---
 sqlpuzzle/_common/__init__.py       |  2 +-
 sqlpuzzle/_common/utils.py          | 12 +++++++++++-
 sqlpuzzle/_queryparts/columns.py    |  6 +++---
 sqlpuzzle/_queryparts/conditions.py |  6 +++---
 sqlpuzzle/_queryparts/order.py      |  6 +++---
 sqlpuzzle/_queryparts/tables.py     | 10 +++++-----
 sqlpuzzle/_queryparts/values.py     |  6 +++---
 7 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/sqlpuzzle/_common/__init__.py b/sqlpuzzle/_common/__init__.py
index c23346c..c9d080b 100644
--- a/sqlpuzzle/_common/__init__.py
+++ b/sqlpuzzle/_common/__init__.py
@@ -2,4 +2,4 @@ from .argsparser import parse_args
 from .customsql import CustomSql
 from .object import Object
 from .sqlvalue import SqlValue, SqlReference
-from .utils import force_text, is_sql_instance, check_type_decorator
+from .utils import force_text, is_sql_instance, is_same, check_type_decorator
diff --git a/sqlpuzzle/_common/utils.py b/sqlpuzzle/_common/utils.py
index 9a8275c..e5bee50 100644
--- a/sqlpuzzle/_common/utils.py
+++ b/sqlpuzzle/_common/utils.py
@@ -2,7 +2,7 @@ from functools import wraps
 
 from sqlpuzzle.exceptions import InvalidArgumentException
 
-__all__ = ('force_text', 'is_sql_instance', 'check_type_decorator')
+__all__ = ('force_text', 'is_sql_instance', 'is_same', 'check_type_decorator')
 
 
 def force_text(value):
@@ -15,6 +15,16 @@ def is_sql_instance(value):
     return hasattr(value, 'tosql')
 
 
+def is_same(first, second):
+    """
+    Strict comparison. SQL objects are equal to strings with the same text but
+    such string is something else in the query.
+    """
+    if isinstance(first, (list, tuple)) and type(first) == type(second):
+        return len(first) == len(second) and all(is_same(f, s) for f, s in zip(first, second))
+    return type(first) == type(second) and first == second
+
+
 def check_type_decorator(allowed_types=()):
     def decorator(func):
         @wraps(func)
diff --git a/sqlpuzzle/_queryparts/columns.py b/sqlpuzzle/_queryparts/columns.py
index 1def7d5..961feae 100644
--- a/sqlpuzzle/_queryparts/columns.py
+++ b/sqlpuzzle/_queryparts/columns.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlReference, is_same, check_type_decorator, parse_args
 from .queryparts import QueryPart, QueryParts
 
 __all__ = ('Column', 'Columns')
@@ -21,8 +21,8 @@ class Column(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.alias == other.alias
+            is_same(self.column_name, other.column_name) and
+            is_same(self.alias, other.alias)
         )
 
     @property
diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 9a1ae9d..eb5b97d 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -2,7 +2,7 @@ import datetime
 import decimal
 import types
 
-from sqlpuzzle._common import Object, SqlValue, SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import Object, SqlValue, SqlReference, is_same, check_type_decorator, parse_args
 from sqlpuzzle import relations
 from .functions import Function
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
@@ -52,8 +52,8 @@ class Condition(BinaryOperationMixin, QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.value == other.value and
+            is_same(self.column_name, other.column_name) and
+            is_same(self.value, other.value) and
             self.relation == other.relation
         )
 
diff --git a/sqlpuzzle/_queryparts/order.py b/sqlpuzzle/_queryparts/order.py
index 4f8974d..92e02b9 100644
--- a/sqlpuzzle/_queryparts/order.py
+++ b/sqlpuzzle/_queryparts/order.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlReference, is_same, check_type_decorator, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart, QueryParts
 
@@ -26,7 +26,7 @@ class Order(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
+            is_same(self.column_name, other.column_name) and
             self.sort == other.sort
         )
 
@@ -72,6 +72,6 @@ class Orders(QueryParts):
 
     def _find_order_by_column_name(self, column_name):
         for order in self._parts:
-            if order.column_name == column_name:
+            if is_same(order.column_name, column_name):
                 return order
         return None
diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index dff193a..23c914f 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -1,6 +1,6 @@
 import sqlpuzzle
 from sqlpuzzle._backends import get_backend
-from sqlpuzzle._common import SqlValue, SqlReference, force_text, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlValue, SqlReference, force_text, is_same, check_type_decorator, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException, InvalidQueryException
 from .queryparts import QueryPart, QueryParts
 from .conditions import Condition, Conditions
@@ -47,8 +47,8 @@ class OnCondition(Condition):
         return (
             type(self) == type(other)
             and isinstance(self.value, str)
-            and self.value == other.column_name
-            and self.column_name == other.value
+            and is_same(self.value, other.column_name)
+            and is_same(self.column_name, other.value)
             and revert_relation == type(other.relation_instance)
         )
 
@@ -91,8 +91,8 @@ class Table(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.table_name == other.table_name and
-            self.alias == other.alias and
+            is_same(self.table_name, other.table_name) and
+            is_same(self.alias, other.alias) and
             self._joins == other._joins
         )
 
diff --git a/sqlpuzzle/_queryparts/values.py b/sqlpuzzle/_queryparts/values.py
index c3bb2e0..7d12b43 100644
--- a/sqlpuzzle/_queryparts/values.py
+++ b/sqlpuzzle/_queryparts/values.py
@@ -1,7 +1,7 @@
 import datetime
 import decimal
 
-from sqlpuzzle._common import SqlValue, SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlValue, SqlReference, is_same, check_type_decorator, parse_args
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
 
 
@@ -20,8 +20,8 @@ class Value(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.value == other.value
+            is_same(self.column_name, other.column_name) and
+            is_same(self.value, other.value)
         )
 
     @property
-- 
2.43.0


From 2ed684c0531c87e9d59139859420a04d78384d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:10 +0000
Subject: [PATCH 11/17] fix: CONCAT and GROUP_CONCAT without columns raise
 instead of rendering CONCAT(*)

---
 sqlpuzzle/_queryparts/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index aeb6591..94cafd2 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -99,7 +99,7 @@ class Concat(Function):
     # pylint: disable=super-init-not-called
     def __init__(self, *expr):
         self._columns = Columns().columns(*expr)
-        if not self._columns.is_set:
+        if not self._columns.count_of_parts:
             raise InvalidArgumentException('You must specify columns for %s.' % self._function_name)
 
     def __str__(self):
-- 
2.43.0


From 2a41ed5a95706f341526ebf48e5fcfb05a3f8069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:10 +0000
Subject: [PATCH 12/17] fix: GROUP_CONCAT keeps an empty separator

---
 sqlpuzzle/_queryparts/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index 94cafd2..aa06bd4 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -131,7 +131,7 @@ class GroupConcat(Concat):
         return ''
 
     def _str_separator(self):
-        if self._separator:
+        if self._separator is not None:
             return ' SEPARATOR %s' % SqlValue(self._separator)
         return ''
 
-- 
2.43.0


From 1d4ed97cfe599395503b6414cf33825342a8be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:48 +0000
Subject: [PATCH 13/17] fix: has() looks for the value itself, not for a
 regular expression

---
 sqlpuzzle/_queryparts/queryparts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/queryparts.py b/sqlpuzzle/_queryparts/queryparts.py
index 76f2ef8..9d0a493 100644
--- a/sqlpuzzle/_queryparts/queryparts.py
+++ b/sqlpuzzle/_queryparts/queryparts.py
@@ -21,7 +21,7 @@ def has(part, value):
     value = force_text(value)
     #  If I look for example for "distinct", I don't want to say "hey, there is
     #+ distinct!", if there is actually "distinctrow".
-    res = re.search(r'([^\w]|^){}([^\w]|$)'.format(value), str(part))
+    res = re.search(r'([^\w]|^){}([^\w]|$)'.format(re.escape(value)), str(part))
     return bool(res)
 
 
-- 
2.43.0


From acaf9dfdb8f2e8b183ce77f4b70629588fd57b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:48 +0000
Subject: [PATCH 14/17] fix: inserts with different ON CONFLICT columns are not
 equal

---
 sqlpuzzle/_queryparts/onconflictdoupdate.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqlpuzzle/_queryparts/onconflictdoupdate.py b/sqlpuzzle/_queryparts/onconflictdoupdate.py
index 9e19617..0e9b3ef 100644
--- a/sqlpuzzle/_queryparts/onconflictdoupdate.py
+++ b/sqlpuzzle/_queryparts/onconflictdoupdate.py
@@ -10,6 +10,13 @@ class OnConflictDoUpdate(Values):
         super().__init__(*args, **kwds)
         self._on_conflict = ''
 
+    def __eq__(self, other):
+        return (
+            type(self) == type(other) and
+            super().__eq__(other) and
+            self._on_conflict == other._on_conflict
+        )
+
     @property
     def _keyword_of_parts(self):
         return 'ON CONFLICT ({}) DO UPDATE'.format(self._on_conflict)
-- 
2.43.0


From 5dff256f8f4985c55ea08feb5f0cbbfb3b2e2e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:48 +0000
Subject: [PATCH 15/17] fix: outfile named by custom SQL is not equal to
 outfile named by string

---
 sqlpuzzle/_queryparts/intooutfile.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlpuzzle/_queryparts/intooutfile.py b/sqlpuzzle/_queryparts/intooutfile.py
index 6e0c307..3cc7de4 100644
--- a/sqlpuzzle/_queryparts/intooutfile.py
+++ b/sqlpuzzle/_queryparts/intooutfile.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlValue, check_type_decorator
+from sqlpuzzle._common import SqlValue, check_type_decorator, is_same
 from .queryparts import QueryPart
 
 __all__ = ('IntoOutfile',)
@@ -30,10 +30,10 @@ class IntoOutfile(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self._into_outfile == other._into_outfile and
-            self._fields_terminated_by == other._fields_terminated_by and
-            self._lines_terminated_by == other._lines_terminated_by and
-            self._optionally_enclosed_by == other._optionally_enclosed_by
+            is_same(self._into_outfile, other._into_outfile) and
+            is_same(self._fields_terminated_by, other._fields_terminated_by) and
+            is_same(self._lines_terminated_by, other._lines_terminated_by) and
+            is_same(self._optionally_enclosed_by, other._optionally_enclosed_by)
         )
 
     @property
-- 
2.43.0


From 32f8fcc848889d93cb7ce78d904a1e0896346bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:48 +0000
Subject: [PATCH 16/17] fix: comparing queries with custom SQL is symmetric

---
 sqlpuzzle/_queryparts/queryparts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queryparts/queryparts.py b/sqlpuzzle/_queryparts/queryparts.py
index 9d0a493..856e951 100644
--- a/sqlpuzzle/_queryparts/queryparts.py
+++ b/sqlpuzzle/_queryparts/queryparts.py
@@ -1,7 +1,7 @@
 from functools import wraps
 import re
 
-from sqlpuzzle._common import Object, force_text, is_sql_instance
+from sqlpuzzle._common import Object, force_text, is_same, is_sql_instance
 from sqlpuzzle.exceptions import SqlPuzzleException
 
 __all__ = ('QueryPart', 'QueryParts', 'append_custom_sql_decorator', 'has')
@@ -59,7 +59,7 @@ class QueryParts(Object):
     def __eq__(self, other):
         if not isinstance(other, QueryParts) or len(self._parts) != len(other._parts):
             return False
-        return all(sp == op for sp, op in zip(self._parts, other._parts))
+        return all(is_same(sp, op) for sp, op in zip(self._parts, other._parts))
 
     @property
     def count_of_parts(self):
-- 
2.43.0


From dec00dda82d5e54c8e2ba3aa1a5100b3f8669ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:19 +0000
Subject: [PATCH 17/17] fix: any name can be passed by keyword, also options

---
 sqlpuzzle/_common/argsparser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index cfbc576..ac4f050 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -3,10 +3,10 @@ from sqlpuzzle.exceptions import InvalidArgumentException
 __all__ = ('parse_args',)
 
 
-# pylint: disable=dangerous-default-value,keyword-arg-before-vararg
-def parse_args(options={}, *args, **kwds):
+def parse_args(*args, **kwds):
     """
-    Parser of arguments.
+    Parser of arguments. First positional argument are options of the parser:
+    it has no name because any name can be passed by keyword.
 
     dict options {
         int min_items: Min of required items to fold one tuple. (default: 1)
@@ -34,8 +34,8 @@ def parse_args(options={}, *args, **kwds):
         {key1: val1, key2: val2} => ((key1, val1, None), (key2, val2, None))
         (arg1a, arg1b), arg2a, arg2b => FAIL
     """
-    parser_options = ParserOptions(options)
-    parser_input = ParserInput(args, kwds)
+    parser_options = ParserOptions(args[0] if args else {})
+    parser_input = ParserInput(args[1:], kwds)
 
     parser = Parser(parser_options, parser_input)
     parser.parse()
-- 
2.43.0

