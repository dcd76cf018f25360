From d4444a7bd7f4520e7519b0b2ad47ef0a748eb2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 01/37] fix: merge keeps the order of fields and links of
 ordered queries

Links were moved after all fields, so mutations ran out of order.
---
 hiku/query.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hiku/query.py b/hiku/query.py
index 23fe845..eb3d29f 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -173,6 +173,10 @@ class Node(Base):
         return visitor.visit_node(self)
 
 
+def _merge_key(field):
+    return field.__class__, field.name, field.options_hash, field.alias
+
+
 def _merge(nodes):
     fields = set()
     links = {}
@@ -202,7 +206,13 @@ def merge(nodes):
     """
     assert isinstance(nodes, Sequence), type(nodes)
     ordered = any(n.ordered for n in nodes)
-    return Node(list(_merge(nodes)), ordered=ordered)
+    fields = list(_merge(nodes))
+    if ordered:
+        positions = {}
+        for field in chain.from_iterable(n.fields for n in nodes):
+            positions.setdefault(_merge_key(field), len(positions))
+        fields.sort(key=lambda f: positions[_merge_key(f)])
+    return Node(fields, ordered=ordered)
 
 
 class QueryVisitor:
-- 
2.43.0


From c2e53245a33c58a2ae1cef9f26bc384df9aabc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 02/37] fix: complex fields in ordered queries

---
 hiku/engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hiku/engine.py b/hiku/engine.py
index 4389dd3..9bdf809 100644
--- a/hiku/engine.py
+++ b/hiku/engine.py
@@ -118,6 +118,10 @@ class GroupQuery(hiku_query.QueryVisitor):
 
     def visit_link(self, obj):
         graph_obj = self._node.fields_map[obj.name]
+        if not isinstance(graph_obj, Link):
+            # `obj` here is a link, but this link is treated as a complex field
+            self.visit_field(obj)
+            return
         if graph_obj.requires:
             self.visit(hiku_query.Field(graph_obj.requires))
         self._groups.append((graph_obj, obj))
-- 
2.43.0


From 8ba4be2679660c632549bda799726c01ebd913eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 03/37] fix: fields with different options do not share one
 value

hash() of different option values may be equal, -1 and -2 for example.
---
 hiku/query.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hiku/query.py b/hiku/query.py
index eb3d29f..36dada0 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -52,13 +52,14 @@ from .utils import cached_property
 
 
 def _compute_hash(obj):
+    # returns a hashable value, which is different for different options
     if isinstance(obj, dict):
-        return hash(tuple((_compute_hash(k), _compute_hash(v))
-                          for k, v in sorted(obj.items())))
-    elif isinstance(obj, list):
-        return hash(tuple(_compute_hash(i) for i in obj))
+        return dict, tuple((_compute_hash(k), _compute_hash(v))
+                           for k, v in sorted(obj.items()))
+    elif isinstance(obj, (list, tuple)):
+        return type(obj), tuple(_compute_hash(i) for i in obj)
     else:
-        return hash(obj)
+        return type(obj), obj
 
 
 class Base:
@@ -103,7 +104,7 @@ class FieldBase(Base):
     @cached_property
     def index_key(self):
         if self.options_hash is not None:
-            return '{}[{}]'.format(self.name, self.options_hash)
+            return self.name, self.options_hash
         else:
             return self.name
 
-- 
2.43.0


From 337b258034ae2cbe517bd3161ad451bdfaa3e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 04/37] fix: cancelled execution waits for all of its tasks

and ends as cancelled even if one of them fails.
---
 hiku/executors/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/executors/asyncio.py b/hiku/executors/asyncio.py
index 6f47295..b1302a5 100644
--- a/hiku/executors/asyncio.py
+++ b/hiku/executors/asyncio.py
@@ -26,5 +26,5 @@ class AsyncIOExecutor:
         except CancelledError:
             for task in queue.__futures__:
                 task.cancel()
-            await gather(*queue.__futures__)
+            await gather(*queue.__futures__, return_exceptions=True)
             raise
-- 
2.43.0


From 060da4b86ee0783438c098f46ac40f1635201045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 05/37] fix: metrics of a function shared by several nodes

were recorded under the name of only one of them.
---
 hiku/telemetry/prometheus.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/hiku/telemetry/prometheus.py b/hiku/telemetry/prometheus.py
index 3cc5535..d217652 100644
--- a/hiku/telemetry/prometheus.py
+++ b/hiku/telemetry/prometheus.py
@@ -114,16 +114,13 @@ class GraphMetricsBase(GraphTransformer):
         else:
             func = obj.func
 
-        wrapper = self._wrappers.get(func)
+        wrapper = self._wrappers.get((node_name, func))
         if wrapper is None:
             if isinstance(obj.func, CheckedExpr):
-                wrapper = self._wrappers[func] = self._wrap_subquery(
-                    node_name, func,
-                )
+                wrapper = self._wrap_subquery(node_name, func)
             else:
-                wrapper = self._wrappers[func] = self._wrap_field(
-                    node_name, func,
-                )
+                wrapper = self._wrap_field(node_name, func)
+            self._wrappers[(node_name, func)] = wrapper
 
         if isinstance(obj.func, CheckedExpr):
             obj.func = CheckedExpr(
-- 
2.43.0


From 910ef093fce98e4e05bfd0b079527b0b61a8964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 06/37] fix: instrument graphs from several threads at once

---
 hiku/telemetry/prometheus.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hiku/telemetry/prometheus.py b/hiku/telemetry/prometheus.py
index d217652..10e0435 100644
--- a/hiku/telemetry/prometheus.py
+++ b/hiku/telemetry/prometheus.py
@@ -1,6 +1,7 @@
 import time
 from abc import abstractmethod
 from functools import partial
+from threading import Lock
 
 from prometheus_client import Summary
 
@@ -10,17 +11,19 @@ from ..sources.graph import CheckedExpr
 
 
 _METRIC = None
+_METRIC_LOCK = Lock()
 
 
 def _get_default_metric():
     global _METRIC
-    if _METRIC is None:
-        _METRIC = Summary(
-            'graph_field_time',
-            'Graph field time (seconds)',
-            ['graph', 'node', 'field'],
-        )
-    return _METRIC
+    with _METRIC_LOCK:
+        if _METRIC is None:
+            _METRIC = Summary(
+                'graph_field_time',
+                'Graph field time (seconds)',
+                ['graph', 'node', 'field'],
+            )
+        return _METRIC
 
 
 def _func_field_names(func):
-- 
2.43.0


From bbcb2e2dd9cdf0e5583bb0dba03569eec0ad079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 07/37] fix: aliases inside of complex fields

---
 hiku/denormalize/base.py | 16 +++++++++++-----
 hiku/result.py           |  4 ++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/hiku/denormalize/base.py b/hiku/denormalize/base.py
index 8178bca..969bc87 100644
--- a/hiku/denormalize/base.py
+++ b/hiku/denormalize/base.py
@@ -1,6 +1,7 @@
 from collections import deque
 
 from ..query import QueryVisitor, Link, Field
+from ..result import Proxy
 from ..types import TypeRefMeta, OptionalMeta, SequenceMeta, get_type
 
 
@@ -19,15 +20,20 @@ class Denormalize(QueryVisitor):
         self.visit(query)
         return self._res.pop()
 
+    def _get_value(self, obj):
+        data = self._data[-1]
+        # aliases are unknown to the values of the complex fields
+        return data[obj.result_key if isinstance(data, Proxy) else obj.name]
+
     def visit_field(self, obj: Field):
-        self._res[-1][obj.result_key] = self._data[-1][obj.result_key]
+        self._res[-1][obj.result_key] = self._get_value(obj)
 
     def visit_link(self, obj: Link):
         type_ = self._type[-1].__field_types__[obj.name]
         if isinstance(type_, TypeRefMeta):
             self._type.append(get_type(self._types, type_))
             self._res.append({})
-            self._data.append(self._data[-1][obj.result_key])
+            self._data.append(self._get_value(obj))
             super().visit_link(obj)
             self._data.pop()
             self._res[-1][obj.result_key] = self._res.pop()
@@ -35,7 +41,7 @@ class Denormalize(QueryVisitor):
         elif isinstance(type_, SequenceMeta):
             self._type.append(get_type(self._types, type_.__item_type__))
             items = []
-            for item in self._data[-1][obj.result_key]:
+            for item in self._get_value(obj):
                 self._res.append({})
                 self._data.append(item)
                 super().visit_link(obj)
@@ -44,12 +50,12 @@ class Denormalize(QueryVisitor):
             self._res[-1][obj.result_key] = items
             self._type.pop()
         elif isinstance(type_, OptionalMeta):
-            if self._data[-1][obj.result_key] is None:
+            if self._get_value(obj) is None:
                 self._res[-1][obj.result_key] = None
             else:
                 self._type.append(get_type(self._types, type_.__type__))
                 self._res.append({})
-                self._data.append(self._data[-1][obj.result_key])
+                self._data.append(self._get_value(obj))
                 super().visit_link(obj)
                 self._data.pop()
                 self._res[-1][obj.result_key] = self._res.pop()
diff --git a/hiku/result.py b/hiku/result.py
index 318e1c4..45be1ec 100644
--- a/hiku/result.py
+++ b/hiku/result.py
@@ -116,8 +116,8 @@ def _denormalize_type(type_, result, query_obj):
             assert isinstance(type_, RecordMeta), type(type_)
             field_types = type_.__field_types__
             return {
-                f.name: _denormalize_type(field_types[f.name],
-                                          result[f.name], f)
+                f.result_key: _denormalize_type(field_types[f.name],
+                                                result[f.name], f)
                 for f in query_obj.node.fields
             }
     assert False, (type_, query_obj)
-- 
2.43.0


From 346420b424b9b5e4597489ddb2425727892942ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 08/37] fix: denormalize complex fields with nested type
 references

---
 hiku/result.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hiku/result.py b/hiku/result.py
index 45be1ec..eab4820 100644
--- a/hiku/result.py
+++ b/hiku/result.py
@@ -102,21 +102,22 @@ class Proxy:
             raise AttributeError(e)
 
 
-def _denormalize_type(type_, result, query_obj):
+def _denormalize_type(types, type_, result, query_obj):
     if isinstance(query_obj, Field):
         return result
     elif isinstance(query_obj, Link):
+        type_ = get_type(types, type_)
         if isinstance(type_, SequenceMeta):
-            return [_denormalize_type(type_.__item_type__, item, query_obj)
+            return [_denormalize_type(types, type_.__item_type__, item, query_obj)
                     for item in result]
         elif isinstance(type_, OptionalMeta):
-            return (_denormalize_type(type_.__type__, result, query_obj)
+            return (_denormalize_type(types, type_.__type__, result, query_obj)
                     if result is not None else None)
         else:
             assert isinstance(type_, RecordMeta), type(type_)
             field_types = type_.__field_types__
             return {
-                f.result_key: _denormalize_type(field_types[f.name],
+                f.result_key: _denormalize_type(types, field_types[f.name],
                                                 result[f.name], f)
                 for f in query_obj.node.fields
             }
@@ -136,8 +137,8 @@ def _denormalize(graph, graph_obj, result, query_obj):
 
     elif isinstance(query_obj, Link):
         if isinstance(graph_obj, GraphField):
-            field_type = get_type(graph.data_types, graph_obj.type)
-            return _denormalize_type(field_type, result, query_obj)
+            return _denormalize_type(graph.data_types, graph_obj.type,
+                                     result, query_obj)
 
         elif isinstance(graph_obj, GraphLink):
             graph_node = graph.nodes_map[graph_obj.node]
-- 
2.43.0


From ce1f5c0aa046c56a60abd9fe265fed88edd68d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 09/37] fix: expressions without references to "this"

---
 hiku/sources/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiku/sources/graph.py b/hiku/sources/graph.py
index c275674..bf6d801 100644
--- a/hiku/sources/graph.py
+++ b/hiku/sources/graph.py
@@ -107,7 +107,8 @@ class SubGraph:
         this_graph_link = Link(THIS, Sequence[TypeRef[self.node]], None,
                                requires=None)
 
-        reqs = merge([gf.func.reqs for gf, _ in fields])
+        this_reqs = query.Node([query.Link(THIS, query.Node([]))])
+        reqs = merge([this_reqs] + [gf.func.reqs for gf, _ in fields])
         procs = [gf.func.proc for gf, _ in fields]
         option_values = [[qf.options[opt.name] for opt in gf.options]
                          for gf, qf in fields]
-- 
2.43.0


From 5c277ce23a860636776a7e27c797fdd7871affa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 10/37] fix: merge links with an alias equal to the name of the
 link

`{ l { x } l: l { y } }` could not be read from the result.
---
 hiku/query.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hiku/query.py b/hiku/query.py
index 36dada0..d7c4a17 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -175,7 +175,7 @@ class Node(Base):
 
 
 def _merge_key(field):
-    return field.__class__, field.name, field.options_hash, field.alias
+    return field.__class__, field.name, field.options_hash, field.result_key
 
 
 def _merge(nodes):
@@ -183,7 +183,7 @@ def _merge(nodes):
     links = {}
     to_merge = OrderedDict()
     for field in chain.from_iterable(e.fields for e in nodes):
-        key = (field.name, field.options_hash, field.alias)
+        key = (field.name, field.options_hash, field.result_key)
         if field.__class__ is Link:
             if key not in to_merge:
                 to_merge[key] = [field.node]
-- 
2.43.0


From 12e8e460488e875d860e80fe94c0a612c7ef9bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 11/37] fix: report unknown nested fields of the complex fields

Validation failed with KeyError.
---
 hiku/validate/query.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index 94477fc..b792690 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -232,6 +232,9 @@ class _RecordFieldsValidator(QueryVisitor):
                                 .format(obj.name))
 
     def visit_link(self, obj):
+        if obj.name not in self._field_types:
+            self._errors.report('Unknown field name "{}"'.format(obj.name))
+            return
         field_types = _AssumeRecord(self._data_types) \
             .visit(self._field_types[obj.name])
         if field_types is not None:
-- 
2.43.0


From 61bf77ed1f9bc8d80f387f5f86626d7676063509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 12/37] fix: default options of the fields of the low-level
 graphs

These fields were loaded without any options.
---
 hiku/engine.py        | 4 ++--
 hiku/sources/graph.py | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/hiku/engine.py b/hiku/engine.py
index 9bdf809..82ad4c2 100644
--- a/hiku/engine.py
+++ b/hiku/engine.py
@@ -29,9 +29,9 @@ def _get_options(graph_obj, query_obj):
 
 class InitOptions(hiku_query.QueryTransformer):
 
-    def __init__(self, graph):
+    def __init__(self, graph, node=None):
         self._graph = graph
-        self._path = [graph.root]
+        self._path = [graph.root if node is None else node]
 
     def visit_field(self, obj):
         graph_obj = self._path[-1].fields_map[obj.name]
diff --git a/hiku/sources/graph.py b/hiku/sources/graph.py
index bf6d801..0aa66a0 100644
--- a/hiku/sources/graph.py
+++ b/hiku/sources/graph.py
@@ -5,7 +5,7 @@ from ..graph import Link, Nothing
 from ..types import TypeRef, Sequence
 from ..query import merge
 from ..types import Any
-from ..engine import Query
+from ..engine import Query, InitOptions
 from ..expr.refs import RequirementsExtractor
 from ..expr.core import to_expr, S, THIS
 from ..expr.checker import check, fn_types
@@ -114,8 +114,14 @@ class SubGraph:
                          for gf, qf in fields]
 
         this_query_link = reqs.fields_map[THIS]
+        this_query_link = this_query_link.copy(
+            node=InitOptions(self.graph, self.graph.nodes_map[self.node])
+            .visit(this_query_link.node)
+        )
         other_reqs = query.Node([r for r in reqs.fields
                                  if r.name != THIS])
+        other_reqs = InitOptions(self.graph).visit(other_reqs)
+        reqs = query.Node([this_query_link] + other_reqs.fields)
 
         q = Query(queue, task_set, self.graph, reqs, ctx)
         q.process_link(self.graph.root, this_graph_link, this_query_link,
-- 
2.43.0


From 2b0d39d6519064ee7d709127f077506dd29c3ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 13/37] fix: introspection of options without a type

---
 hiku/introspection/graphql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 30b6b41..b91d452 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -361,7 +361,7 @@ def input_value_type_link(schema, ids):
             node = nodes_map[ident.node]
             field = node.fields_map[ident.field]
             option = field.options_map[ident.name]
-            yield type_ident.visit(option.type)
+            yield type_ident.visit(option.type or Any)
         elif isinstance(ident, InputObjectFieldIdent):
             data_type = schema.data_types[ident.name]
             field_type = data_type.__field_types__[ident.key]
-- 
2.43.0


From c97b0e82be88448f376047c3b506f8f05a8c1b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 14/37] fix: edn documents with an incomplete last element

---
 hiku/edn.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index ef758b6..f7b1646 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -209,7 +209,12 @@ def symbol_handler(s):
 def parser(target, tag_handlers, stop=None):
     handler = None
     while True:
-        c = (yield)
+        try:
+            c = (yield)
+        except EOFError:
+            if handler or stop:
+                raise
+            return
         if handler:
             v = handler.send(c)
             if v is None:
@@ -296,7 +301,15 @@ def loads(s, tag_handlers=None):
     target = parser(appender(lst), dict(tag_handlers or (), **TAG_HANDLERS))
     for c in s:
         target.send(c)
+    # completes the last element and the last comment
     target.send(' ')
+    target.send('\n')
+    try:
+        target.throw(EOFError())
+    except StopIteration:
+        pass
+    except EOFError:
+        raise ValueError("Unexpected end of edn string", s)
     if len(lst) != 1:
         raise ValueError("Expected exactly one top-level element "
                          "in edn string", s)
-- 
2.43.0


From 2a4cf26a29550a9aabbab15d314459c184ed99ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 15/37] fix: answer when a result can not be written as JSON

---
 hiku/console/ui.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hiku/console/ui.py b/hiku/console/ui.py
index 145405f..088c242 100644
--- a/hiku/console/ui.py
+++ b/hiku/console/ui.py
@@ -124,11 +124,11 @@ class ConsoleApplication:
                 result = self.engine.execute(self.root, query, ctx=self.ctx)
                 result = denormalize(self.root, result)
                 status = '200 OK'
+            result_data = _encode(json.dumps(result))
         except Exception:
             tb = traceback.format_exc() if self.debug else None
-            result = {'traceback': tb}
+            result_data = _encode(json.dumps({'traceback': tb}))
             status = '500 Internal Server Error'
-        result_data = _encode(json.dumps(result))
         start_response(status, [
             ('Content-Type', 'application/json'),
             ('Content-Length', str(len(result_data))),
-- 
2.43.0


From fa5f305276e6386a2832c6dfe3116a48b9bfab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 16/37] fix: fields with both @skip and @include directives

---
 hiku/readers/graphql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiku/readers/graphql.py b/hiku/readers/graphql.py
index 99732f9..f008592 100644
--- a/hiku/readers/graphql.py
+++ b/hiku/readers/graphql.py
@@ -131,7 +131,8 @@ class SelectionSetVisitMixin:
                 raise TypeError('@skip directive does not accept "{}" '
                                 'argument'
                                 .format(skip_arg.name.value))
-            return self.visit(skip_arg.value)
+            if self.visit(skip_arg.value):
+                return True
 
         include = next((d for d in obj.directives if d.name.value == 'include'),
                        None)
-- 
2.43.0


From dddb1861e4aaaf5d47eca6f611be878d23762e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 17/37] fix: answer with an error when operation name is
 unknown

---
 hiku/endpoint/graphql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index 336af7e..e06de73 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -35,7 +35,7 @@ def _switch_graph(data, query_graph, mutation_graph=None):
         op = read_operation(data['query'],
                             variables=data.get('variables'),
                             operation_name=data.get('operationName'))
-    except TypeError as e:
+    except (TypeError, ValueError) as e:
         raise GraphQLError(errors=[
             'Failed to read query: {}'.format(e),
         ])
-- 
2.43.0


From fffc195b008414f2d98c403f4dc686420139a08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:56 +0000
Subject: [PATCH 18/37] fix: answer with an error when a fragment is undefined

---
 hiku/readers/graphql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hiku/readers/graphql.py b/hiku/readers/graphql.py
index f008592..1b33d53 100644
--- a/hiku/readers/graphql.py
+++ b/hiku/readers/graphql.py
@@ -223,6 +223,8 @@ class FragmentsTransformer(SelectionSetVisitMixin, NodeVisitor):
         self.pending_fragments = set()
 
     def transform_fragment(self, name):
+        if name not in self.fragments_map:
+            raise TypeError('Undefined fragment: "{}"'.format(name))
         return self.visit(self.fragments_map[name])
 
     def visit_operation_definition(self, obj):
-- 
2.43.0


From 4e2104c423347e006d91726fb9acb7c0efbd2a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:51 +0000
Subject: [PATCH 19/37] fix: answer uploads with an invalid content length

---
 hiku/console/ui.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hiku/console/ui.py b/hiku/console/ui.py
index 088c242..42b79f5 100644
--- a/hiku/console/ui.py
+++ b/hiku/console/ui.py
@@ -107,7 +107,10 @@ class ConsoleApplication:
         return [content]
 
     def _index_post(self, environ, start_response):
-        limit = max(0, int(environ.get('CONTENT_LENGTH') or 0))
+        try:
+            limit = max(0, int(environ.get('CONTENT_LENGTH') or 0))
+        except ValueError:
+            return self._error(400, start_response, 'Invalid content length')
         if limit > 2 ** 20:  # 1MB
             return self._error(400, start_response, 'Payload is too big')
 
-- 
2.43.0


From 012912f51ec9f57c44bda37b89eeba0039f5056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 20/37] fix: SQL links to no target (a null) find nothing

A row of a link's table whose target column is null was taken for a link to
an object identified by None: optional links returned an object full of
nulls instead of nothing, and links to many returned such objects among the
others.
---
 hiku/sources/sqlalchemy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hiku/sources/sqlalchemy.py b/hiku/sources/sqlalchemy.py
index d3c53fa..d33343f 100644
--- a/hiku/sources/sqlalchemy.py
+++ b/hiku/sources/sqlalchemy.py
@@ -84,7 +84,8 @@ class FieldsQuery:
 
 
 def _to_maybe_mapper(pairs, values):
-    mapping = dict(pairs)
+    mapping = {from_value: to_value for from_value, to_value in pairs
+               if to_value is not None}
     return [mapping.get(value, Nothing) for value in values]
 
 
@@ -96,7 +97,8 @@ def _to_one_mapper(pairs, values):
 def _to_many_mapper(pairs, values):
     mapping = defaultdict(list)
     for from_value, to_value in pairs:
-        mapping[from_value].append(to_value)
+        if to_value is not None:
+            mapping[from_value].append(to_value)
     return [mapping[value] for value in values]
 
 
-- 
2.43.0


From e2028b245c26a479ccf3415984163958e39c3cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 21/37] fix: a field required by a link is loaded with its
 default options

Such a field was loaded without any options, so loading functions which read
them, and expressions of sub-graphs with options, failed.
---
 hiku/engine.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hiku/engine.py b/hiku/engine.py
index 82ad4c2..a5fec0f 100644
--- a/hiku/engine.py
+++ b/hiku/engine.py
@@ -27,6 +27,16 @@ def _get_options(graph_obj, query_obj):
     return dict(_yield_options(graph_obj, query_obj))
 
 
+def _required_field(node, graph_link):
+    # the field, required by the link, loaded with the default options
+    field = hiku_query.Field(graph_link.requires)
+    graph_field = node.fields_map[graph_link.requires]
+    if graph_field.options:
+        return field.copy(options=_get_options(graph_field, field))
+    else:
+        return field
+
+
 class InitOptions(hiku_query.QueryTransformer):
 
     def __init__(self, graph, node=None):
@@ -81,7 +91,7 @@ class SplitQuery(hiku_query.QueryVisitor):
         graph_obj = self._node.fields_map[obj.name]
         if isinstance(graph_obj, Link):
             if graph_obj.requires:
-                self.visit(hiku_query.Field(graph_obj.requires))
+                self.visit(_required_field(self._node, graph_obj))
             self._links.append((graph_obj, obj))
         else:
             assert isinstance(graph_obj, Field), type(graph_obj)
@@ -123,7 +133,7 @@ class GroupQuery(hiku_query.QueryVisitor):
             self.visit_field(obj)
             return
         if graph_obj.requires:
-            self.visit(hiku_query.Field(graph_obj.requires))
+            self.visit(_required_field(self._node, graph_obj))
         self._groups.append((graph_obj, obj))
         self._funcs.append(graph_obj.func)
         self._current_func = None
@@ -173,12 +183,13 @@ def store_fields(index, node, query_fields, ids, query_result):
 
 
 def link_reqs(index, node, link, ids):
+    key = _required_field(node, link).index_key
     if node.name is not None:
         assert ids is not None
         node_idx = index[node.name]
-        return [node_idx[i][link.requires] for i in ids]
+        return [node_idx[i][key] for i in ids]
     else:
-        return index.root[link.requires]
+        return index.root[key]
 
 
 def link_ref_maybe(graph_link, ident):
-- 
2.43.0


From cfeef6ff45b317b1b4075760b08e5b4ec7652caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:16 +0000
Subject: [PATCH 22/37] fix: names bound in expressions are known only within
 their scope

---
 hiku/expr/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/expr/compiler.py b/hiku/expr/compiler.py
index 070ba1b..8f2139c 100644
--- a/hiku/expr/compiler.py
+++ b/hiku/expr/compiler.py
@@ -18,7 +18,7 @@ class Environ:
         return '{}_{}'.format(key, i) if i > 1 else key
 
     def __contains__(self, key):
-        return key in self.vars
+        return self.vars[key] > 0
 
     @contextmanager
     def push(self, names):
-- 
2.43.0


From dcbde377a0a19989b6c7459e34dda95cac605688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:16 +0000
Subject: [PATCH 23/37] fix: if_some binds its name only in the then-expression

---
 hiku/expr/compiler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hiku/expr/compiler.py b/hiku/expr/compiler.py
index 8f2139c..9d61678 100644
--- a/hiku/expr/compiler.py
+++ b/hiku/expr/compiler.py
@@ -104,6 +104,9 @@ class ExpressionCompiler:
     def visit_if_some_expr(self, node):
         _, bind, then_, else_ = node.values
         bind_sym, bind_expr = bind.values
+        # bound name is available only in the "then" expression
+        bound_expr = self.visit(bind_expr)
+        else_expr = self.visit(else_)
         with self.env.push([bind_sym.name]):
             none = py.NameConstant(None)
             load_bind_sym = py.Name(self.env[bind_sym.name], py.Load())
@@ -111,11 +114,11 @@ class ExpressionCompiler:
             store_bind_sym = py.Name(self.env[bind_sym.name], py.Store())
             comp = py.comprehension(
                 store_bind_sym,
-                py.Tuple([self.visit(bind_expr)], py.Load()),
+                py.Tuple([bound_expr], py.Load()),
                 [],
                 False,
             )
-            expr = py.IfExp(test, self.visit(then_), self.visit(else_))
+            expr = py.IfExp(test, self.visit(then_), else_expr)
         gen = py.GeneratorExp(expr, [comp])
         return py.Call(py.Name('next', py.Load()), [gen], [])
 
-- 
2.43.0


From e2d2f3dde31240ed82b2b0614cb13c23976e343e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:16 +0000
Subject: [PATCH 24/37] fix: variables and options of expressions can be named
 ctx or env

---
 hiku/expr/compiler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hiku/expr/compiler.py b/hiku/expr/compiler.py
index 9d61678..af23ccf 100644
--- a/hiku/expr/compiler.py
+++ b/hiku/expr/compiler.py
@@ -10,11 +10,12 @@ from .nodes import Symbol, Keyword
 
 class Environ:
 
-    def __init__(self):
+    def __init__(self, reserved=()):
         self.vars = Counter()
+        self.reserved = frozenset(reserved)
 
     def __getitem__(self, key):
-        i = self.vars[key]
+        i = self.vars[key] + (key in self.reserved)
         return '{}_{}'.format(key, i) if i > 1 else key
 
     def __contains__(self, key):
@@ -36,7 +37,7 @@ class ExpressionCompiler:
     env_var = 'env'
 
     def __init__(self):
-        self.env = Environ()
+        self.env = Environ([self.env_var, self.ctx_var])
 
     @classmethod
     def compile_expr(cls, node):
@@ -48,12 +49,13 @@ class ExpressionCompiler:
         compiler = cls()
         with compiler.env.push([THIS] + args):
             body = compiler.visit(node)
+            arg_names = [compiler.env[name] for name in args]
         py_args = [
             py.arg(cls.env_var, None),
             py.arg(THIS, None),
             py.arg(cls.ctx_var, None),
         ]
-        py_args.extend(py.arg(name, None) for name in args)
+        py_args.extend(py.arg(name, None) for name in arg_names)
         expr = py.Lambda(py.arguments([], py_args, None, [], [], None, []),
                          body)
         py.fix_missing_locations(expr)
-- 
2.43.0


From cd167962928d6db2cd977a59511aa66a8aa95e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:16 +0000
Subject: [PATCH 25/37] fix: graphs with several root nodes can be introspected

---
 hiku/introspection/graphql.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index b91d452..275b41e 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -647,15 +647,12 @@ class GraphQLIntrospection(GraphTransformer):
         node.fields.append(self.__type_name__(obj.name))
         return node
 
-    def visit_root(self, obj):
-        root = super(GraphQLIntrospection, self).visit_root(obj)
-        root.fields.append(self.__type_name__(QUERY_ROOT_NAME))
-        return root
-
     def visit_graph(self, obj):
         ValidateGraph.validate(obj)
         introspection_graph = self.__introspection_graph__()
         items = [self.visit(node) for node in obj.items]
+        # graph can have several root nodes, they have one type name
+        items.append(Root([self.__type_name__(QUERY_ROOT_NAME)]))
         items.extend(introspection_graph.items)
         return Graph(items, data_types=obj.data_types)
 
-- 
2.43.0


From bf7e369bbdddb39af7db565f1a496851ed201270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:02 +0000
Subject: [PATCH 26/37] fix: a document with a syntax error is answered with
 errors, and no longer loses the rest of its batch

---
 hiku/endpoint/graphql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index e06de73..929d911 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -1,6 +1,8 @@
 from abc import ABC, abstractmethod
 from asyncio import gather
 
+from graphql.error import GraphQLSyntaxError
+
 from ..graph import apply
 from ..query import QueryTransformer
 from ..validate.query import validate
@@ -35,7 +37,7 @@ def _switch_graph(data, query_graph, mutation_graph=None):
         op = read_operation(data['query'],
                             variables=data.get('variables'),
                             operation_name=data.get('operationName'))
-    except (TypeError, ValueError) as e:
+    except (TypeError, ValueError, GraphQLSyntaxError) as e:
         raise GraphQLError(errors=[
             'Failed to read query: {}'.format(e),
         ])
-- 
2.43.0


From 54f2aff8abbf5e11af0edf3a9c05225de4be20dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:19 +0000
Subject: [PATCH 27/37] fix: loading functions may change the options they get

---
 hiku/engine.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/hiku/engine.py b/hiku/engine.py
index a5fec0f..07a17e9 100644
--- a/hiku/engine.py
+++ b/hiku/engine.py
@@ -27,12 +27,21 @@ def _get_options(graph_obj, query_obj):
     return dict(_yield_options(graph_obj, query_obj))
 
 
+def _copy_for_execution(obj, **changes):
+    obj = obj.copy(**changes)
+    # loading functions are free to change the options they get, so the key of
+    # the result should be known before they are called
+    obj.index_key
+    return obj
+
+
 def _required_field(node, graph_link):
     # the field, required by the link, loaded with the default options
     field = hiku_query.Field(graph_link.requires)
     graph_field = node.fields_map[graph_link.requires]
     if graph_field.options:
-        return field.copy(options=_get_options(graph_field, field))
+        return _copy_for_execution(
+            field, options=_get_options(graph_field, field))
     else:
         return field
 
@@ -46,7 +55,8 @@ class InitOptions(hiku_query.QueryTransformer):
     def visit_field(self, obj):
         graph_obj = self._path[-1].fields_map[obj.name]
         if graph_obj.options:
-            return obj.copy(options=_get_options(graph_obj, obj))
+            return _copy_for_execution(
+                obj, options=_get_options(graph_obj, obj))
         else:
             return obj
 
@@ -64,7 +74,7 @@ class InitOptions(hiku_query.QueryTransformer):
             node = obj.node
 
         options = _get_options(graph_obj, obj) if graph_obj.options else None
-        return obj.copy(node=node, options=options)
+        return _copy_for_execution(obj, node=node, options=options)
 
 
 class SplitQuery(hiku_query.QueryVisitor):
-- 
2.43.0


From 964ebc9a91723e7d86fb692f633d2261cbe0e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:53 +0000
Subject: [PATCH 28/37] fix: answer requests without a query with errors

---
 hiku/endpoint/graphql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index 929d911..824e853 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -34,6 +34,8 @@ class _StripQuery(QueryTransformer):
 
 def _switch_graph(data, query_graph, mutation_graph=None):
     try:
+        if 'query' not in data:
+            raise TypeError('Query is missing')
         op = read_operation(data['query'],
                             variables=data.get('variables'),
                             operation_name=data.get('operationName'))
-- 
2.43.0


From 904193d910727b2af4a5ec223d37cc51f35255e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:55 +0000
Subject: [PATCH 29/37] fix: answer documents with type definitions with errors

---
 hiku/readers/graphql.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hiku/readers/graphql.py b/hiku/readers/graphql.py
index 1b33d53..21d63ff 100644
--- a/hiku/readers/graphql.py
+++ b/hiku/readers/graphql.py
@@ -9,10 +9,10 @@ from ..query import Node, Field, Link, merge
 class NodeVisitor:
 
     def visit(self, obj):
-        visit_method = getattr(self, 'visit_{}'.format(obj.kind))
+        visit_method = getattr(self, 'visit_{}'.format(obj.kind), None)
         if visit_method is None:
-            raise NotImplementedError('Not implemented node type: {!r}'
-                                      .format(obj))
+            raise TypeError('Not implemented node type: {!r}'
+                            .format(obj.kind))
         return visit_method(obj)
 
     def visit_document(self, obj):
-- 
2.43.0


From 7c46f7be0097caaf939ba2abbb4acac4f3171fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:56 +0000
Subject: [PATCH 30/37] fix: do not execute requests which select fields of
 __typename

---
 hiku/endpoint/graphql.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index 824e853..1b4e815 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -4,7 +4,7 @@ from asyncio import gather
 from graphql.error import GraphQLSyntaxError
 
 from ..graph import apply
-from ..query import QueryTransformer
+from ..query import QueryTransformer, Field
 from ..validate.query import validate
 from ..readers.graphql import read_operation, OperationType
 from ..denormalize.graphql import DenormalizeGraphQL
@@ -27,9 +27,12 @@ class GraphQLError(Exception):
 
 class _StripQuery(QueryTransformer):
 
+    def _is_type_name(self, obj):
+        return isinstance(obj, Field) and obj.name == '__typename'
+
     def visit_node(self, obj):
         return obj.copy(fields=[self.visit(f) for f in obj.fields
-                                if f.name != '__typename'])
+                                if not self._is_type_name(f)])
 
 
 def _switch_graph(data, query_graph, mutation_graph=None):
-- 
2.43.0


From b4d1760fa72c339a1b54aa39b377fad7ef80e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:26 +0000
Subject: [PATCH 31/37] fix: report different fields of one name in a complex
 field

---
 hiku/validate/query.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index b792690..d921f12 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -241,11 +241,15 @@ class _RecordFieldsValidator(QueryVisitor):
             fields_validator = _RecordFieldsValidator(self._data_types,
                                                       field_types,
                                                       self._errors)
-            for field in obj.node.fields:
-                fields_validator.visit(field)
+            fields_validator.visit_fields(obj)
         else:
             self._errors.report('"{}" is not a link'.format(obj.name))
 
+    def visit_fields(self, obj):
+        _check_names(obj.node, obj.name, self._errors)
+        for field in obj.node.fields:
+            self.visit(field)
+
     def visit_node(self, obj):
         raise AssertionError('Node is not expected here')
 
@@ -254,6 +258,16 @@ def _field_eq(a, b):
     return a.name == b.name and a.options == b.options
 
 
+def _check_names(obj, name, errors):
+    fields = {}
+    for field in obj.fields:
+        seen = fields.setdefault(field.result_key, field)
+        if not _field_eq(field, seen):
+            errors.report('Found distinct fields with the same '
+                          'resulting name "{}" for the node "{}"'
+                          .format(field.result_key, name))
+
+
 class QueryValidator(QueryVisitor):
 
     def __init__(self, graph):
@@ -288,8 +302,7 @@ class QueryValidator(QueryVisitor):
                 fields_validator = _RecordFieldsValidator(self.graph.data_types,
                                                           field_types,
                                                           self.errors)
-                for field in obj.node.fields:
-                    fields_validator.visit(field)
+                fields_validator.visit_fields(obj)
             else:
                 self.errors.report('Trying to query "{}.{}" simple field '
                                    'as node'
@@ -314,17 +327,8 @@ class QueryValidator(QueryVisitor):
             raise TypeError(repr(graph_obj))
 
     def visit_node(self, obj):
-        fields = {}
+        _check_names(obj, self.path[-1].name or 'root', self.errors)
         for field in obj.fields:
-            seen = fields.get(field.result_key)
-            if seen is not None:
-                if not _field_eq(field, seen):
-                    node = self.path[-1].name or 'root'
-                    self.errors.report('Found distinct fields with the same '
-                                       'resulting name "{}" for the node "{}"'
-                                       .format(field.result_key, node))
-            else:
-                fields[field.result_key] = field
             self.visit(field)
 
 
-- 
2.43.0


From e3b2e436b98eac6b2d6a68a9088023643bd6b42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:47 +0000
Subject: [PATCH 32/37] fix: do not answer requests which want __typename and
 another field under one name

---
 hiku/endpoint/graphql.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index 1b4e815..a3d3e69 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -27,10 +27,19 @@ class GraphQLError(Exception):
 
 class _StripQuery(QueryTransformer):
 
+    def __init__(self):
+        self.errors = []
+
     def _is_type_name(self, obj):
         return isinstance(obj, Field) and obj.name == '__typename'
 
     def visit_node(self, obj):
+        type_names = {f.result_key for f in obj.fields
+                      if self._is_type_name(f)}
+        for f in obj.fields:
+            if f.result_key in type_names and not self._is_type_name(f):
+                self.errors.append('Found distinct fields with the same '
+                                   'resulting name "{}"'.format(f.result_key))
         return obj.copy(fields=[self.visit(f) for f in obj.fields
                                 if not self._is_type_name(f)])
 
@@ -58,8 +67,9 @@ def _switch_graph(data, query_graph, mutation_graph=None):
 
 
 def _process_query(graph, query):
-    stripped_query = _StripQuery().visit(query)
-    errors = validate(graph, stripped_query)
+    strip_query = _StripQuery()
+    stripped_query = strip_query.visit(query)
+    errors = strip_query.errors + validate(graph, stripped_query)
     if errors:
         raise GraphQLError(errors=errors)
     else:
-- 
2.43.0


From cad958ca0ae91ad89c0debff222e8d3b239f693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:18 +0000
Subject: [PATCH 33/37] fix: EDN strings with \u escapes, as hiku.edn.dumps
 writes them, are read back

---
 hiku/edn.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index f7b1646..7fae27e 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -238,17 +238,30 @@ def parser(target, tag_handlers, stop=None):
                 pass
         elif c == '"':
             chars = []
+            unicode_escapes = False
             while 1:
                 char = (yield)
                 if char == '\\':
                     char = (yield)
+                    if char == 'u':
+                        code = ''
+                        for _ in range(4):
+                            code += (yield)
+                        chars.append(chr(int(code, 16)))
+                        unicode_escapes = True
+                        continue
                     char2 = _CHAR_MAP.get(char)
                     if char2 is not None:
                         chars.append(char2)
                     else:
                         chars.append(char)
                 elif char == '"':
-                    target.send(''.join(chars))
+                    value = ''.join(chars)
+                    if unicode_escapes:
+                        # joins surrogate pairs
+                        value = (value.encode('utf-16', 'surrogatepass')
+                                 .decode('utf-16', 'surrogatepass'))
+                    target.send(value)
                     break
                 else:
                     chars.append(char)
-- 
2.43.0


From 7e09c060577dec5de6c3176b23d10a22fde3fac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:09 +0000
Subject: [PATCH 34/37] fix: EDN tagged elements at the end of a collection are
 read

---
 hiku/edn.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index 7fae27e..ed93816 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -147,13 +147,20 @@ def tag_handler(tag_name, tag_handlers):
     elements = []
     handler = parser(appender(elements), tag_handlers)
     handler.send(c)
+    consumed = True
     while not elements:
-        handler.send((yield))
+        c = (yield)
+        try:
+            handler.send(c)
+        except ValueError:
+            if not elements or c not in '}])':
+                raise
+            # the end of the collection, right after the element
+            consumed = False
     if tag_name in tag_handlers:
-        yield tag_handlers[tag_name](elements[0]), True
+        yield tag_handlers[tag_name](elements[0]), consumed
     else:
-        yield TaggedElement(tag_name, elements[0]), True
-        yield None, True
+        yield TaggedElement(tag_name, elements[0]), consumed
 
 
 @coroutine
-- 
2.43.0


From 32685b42a0082046132bd895bb41ee7a66bcd755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:11 +0000
Subject: [PATCH 35/37] fix: read EDN names, signs and tagged elements right
 before a delimiter

Names did not end at an opening delimiter, a quote or a comment, so that
`[:a{:b 1}]` was not read; `-` and `.` swallowed what followed them, and a
tagged name or number swallowed the beginning of the next collection.
---
 hiku/edn.py | 47 ++++++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index ed93816..57556ef 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -111,6 +111,8 @@ TAG_HANDLERS = {'inst': inst_handler, 'uuid': UUID}
 
 STOP_CHARS = " ,\n\r\t"
 
+DELIMITERS = '{}[]()"\\;'
+
 _CHAR_HANDLERS = {
     'newline': '\n',
     'space': ' ',
@@ -145,18 +147,13 @@ def tag_handler(tag_name, tag_handlers):
             break
         tag_name += c
     elements = []
-    handler = parser(appender(elements), tag_handlers)
-    handler.send(c)
-    consumed = True
-    while not elements:
-        c = (yield)
-        try:
-            handler.send(c)
-        except ValueError:
-            if not elements or c not in '}])':
-                raise
-            # the end of the collection, right after the element
-            consumed = False
+    handler = parser(appender(elements), tag_handlers, single=True)
+    try:
+        handler.send(c)
+        while True:
+            handler.send((yield))
+    except StopIteration as end:
+        consumed = end.value
     if tag_name in tag_handlers:
         yield tag_handlers[tag_name](elements[0]), consumed
     else:
@@ -197,7 +194,7 @@ def number_handler(s):
 def symbol_handler(s):
     while 1:
         c = (yield)
-        if c in '}])' + STOP_CHARS:
+        if c in DELIMITERS + STOP_CHARS:
             if s[0] == ':':
                 yield Keyword(s[1:]), False
             elif s == 'true':
@@ -213,7 +210,19 @@ def symbol_handler(s):
 
 
 @coroutine
-def parser(target, tag_handlers, stop=None):
+def sign_handler(s):
+    c = (yield)
+    if c.isdigit():  # .5 should be an error
+        handler, v = number_handler(s + c), None
+    else:
+        handler = symbol_handler(s)
+        v = handler.send(c)
+    while True:
+        v = handler.send((yield v))
+
+
+@coroutine
+def parser(target, tag_handlers, stop=None, single=False):
     handler = None
     while True:
         try:
@@ -234,6 +243,8 @@ def parser(target, tag_handlers, stop=None):
                         target.send(None)
                     else:
                         target.send(v)
+                if single:
+                    return consumed
                 if consumed:
                     continue
         if c == stop:
@@ -277,11 +288,7 @@ def parser(target, tag_handlers, stop=None):
         elif c in '0123456789':
             handler = number_handler(c)
         elif c in '-.':
-            c2 = (yield)
-            if c2.isdigit():  # .5 should be an error
-                handler = number_handler(c + c2)
-            else:
-                handler = symbol_handler(c + c2)
+            handler = sign_handler(c)
         elif c.isalpha() or c == ':':
             handler = symbol_handler(c)
         elif c in '[({#':
@@ -311,6 +318,8 @@ def parser(target, tag_handlers, stop=None):
                 target.send(Set(lst))
         else:
             raise ValueError("Unexpected character in edn", c)
+        if single and c in '"[({#':
+            return True
 
 
 def loads(s, tag_handlers=None):
-- 
2.43.0


From e0432ab18f3e6b717863d71b46c6c6e9cbfdef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:12 +0000
Subject: [PATCH 36/37] fix: encode values of tagged elements with the given
 default function

---
 hiku/edn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index 57556ef..2558b68 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -418,7 +418,7 @@ def _iterencode(obj, default, encoder):
         yield '#uuid "{}"'.format(obj)
     elif isinstance(obj, TaggedElement):
         yield '#{} '.format(obj.name)
-        for chunk in _iterencode(obj.value, _default, encoder):
+        for chunk in _iterencode(obj.value, default, encoder):
             yield chunk
     else:
         obj = default(obj)
-- 
2.43.0


From 2d1903f2bd00543c1a4b59b671b5b364854f7750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:45:28 +0000
Subject: [PATCH 37/37] fix: the console ran what had arrived of an upload that
 was cut short

---
 hiku/console/ui.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hiku/console/ui.py b/hiku/console/ui.py
index 42b79f5..4468168 100644
--- a/hiku/console/ui.py
+++ b/hiku/console/ui.py
@@ -115,6 +115,9 @@ class ConsoleApplication:
             return self._error(400, start_response, 'Payload is too big')
 
         pattern = environ['wsgi.input'].read(limit)
+        if len(pattern) < limit:
+            return self._error(400, start_response, 'Incomplete payload')
+
         try:
             # TODO: implement query validation
             query = read(_decode(pattern))
-- 
2.43.0

