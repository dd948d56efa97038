From a1d4b21937058b63fd02326b1b409b4fb3b6917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:45 +0000
Subject: [PATCH 01/59] fix: subjects/predicates/objects no longer list terms
 of removed triples

---
 src/pymantic/primitives.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 27ca35c..c2f98e3 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -393,11 +393,20 @@ class Graph:
         """Removes the specified Triple from the graph. This method returns the
         graph instance it was called on."""
         self._triples.remove(triple)
-        del self._spo[triple.subject][triple.predicate][triple.object]
-        del self._pos[triple.predicate][triple.object][triple.subject]
-        del self._osp[triple.object][triple.subject][triple.predicate]
+        self._unindex(self._spo, triple.subject, triple.predicate, triple.object)
+        self._unindex(self._pos, triple.predicate, triple.object, triple.subject)
+        self._unindex(self._osp, triple.object, triple.subject, triple.predicate)
         return self
 
+    @staticmethod
+    def _unindex(index, first, second, third):
+        """Drop one entry from an index, along with levels it leaves empty."""
+        del index[first][second][third]
+        if not index[first][second]:
+            del index[first][second]
+            if not index[first]:
+                del index[first]
+
     def match(self, subject=None, predicate=None, object=None):
         """This method returns a new sequence of triples which is comprised of
         all those triples in the current instance which match the given
-- 
2.43.0


From b376f68bfd08074843797eafbd585ee5ead30b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:47 +0000
Subject: [PATCH 02/59] fix: removeMatches no longer fails by changing the
 graph it iterates over

---
 src/pymantic/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index c2f98e3..5ed56e9 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -466,7 +466,7 @@ class Graph:
     def removeMatches(self, subject, predicate, object):
         """This method removes those triples in the current graph which match
         the given arguments."""
-        for triple in self.match(subject, predicate, object):
+        for triple in list(self.match(subject, predicate, object)):
             self.remove(triple)
         return self
 
@@ -552,7 +552,7 @@ class Dataset:
     def removeMatches(self, subject=None, predicate=None, object=None, graph=None):
         """This method removes those triples in the current graph which match
         the given arguments."""
-        for quad in self.match(subject, predicate, object, graph):
+        for quad in list(self.match(subject, predicate, object, graph)):
             self.remove(quad)
         return self
 
-- 
2.43.0


From cf4c49763a8e88e115e215ea74b62ee46aaedd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:50 +0000
Subject: [PATCH 03/59] fix: only None leaves a match position unbound, not
 every falsy term

---
 src/pymantic/primitives.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 5ed56e9..198f4d6 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -425,9 +425,9 @@ class Graph:
         This method implements AND functionality, so only triples matching all
         of the given non-null arguments will be included in the result.
         """
-        if subject:
-            if predicate:  # s, p, ???
-                if object:  # s, p, o
+        if subject is not None:
+            if predicate is not None:  # s, p, ???
+                if object is not None:  # s, p, o
                     if Triple(subject, predicate, object) in self:
                         yield Triple(subject, predicate, object)
                 else:  # s, p, ?var
@@ -435,7 +435,7 @@ class Graph:
                         for triple in self._spo[subject][predicate].values():
                             yield triple
             else:  # s, ?var, ???
-                if object:  # s, ?var, o
+                if object is not None:  # s, ?var, o
                     if object in self._osp and subject in self._osp[object]:
                         for triple in self._osp[object][subject].values():
                             yield triple
@@ -444,8 +444,8 @@ class Graph:
                         for predicate in self._spo[subject]:
                             for triple in self._spo[subject][predicate].values():
                                 yield triple
-        elif predicate:  # ?var, p, ???
-            if object:  # ?var, p, o
+        elif predicate is not None:  # ?var, p, ???
+            if object is not None:  # ?var, p, o
                 if predicate in self._pos and object in self._pos[predicate]:
                     for triple in self._pos[predicate][object].values():
                         yield triple
@@ -454,7 +454,7 @@ class Graph:
                     for object in self._pos[predicate]:
                         for triple in self._pos[predicate][object].values():
                             yield triple
-        elif object:  # ?var, ?var, o
+        elif object is not None:  # ?var, ?var, o
             if object in self._osp:
                 for subject in self._osp[object]:
                     for triple in self._osp[object][subject].values():
@@ -540,7 +540,7 @@ class Dataset:
         return self._graphs.values()
 
     def match(self, subject=None, predicate=None, object=None, graph=None):
-        if graph:
+        if graph is not None:
             matches = self._graphs[graph].match(subject, predicate, object)
             for match in matches:
                 yield t_as_q(graph, match)
-- 
2.43.0


From a8ab263630942bad507bd0c53b25b11d16fcc85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:13 +0000
Subject: [PATCH 04/59] fix: a Graph created without a name has no name,
 instead of the IRI 'None'

---
 src/pymantic/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 198f4d6..9dca28d 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -362,7 +362,7 @@ class Graph:
     set/sequence API for `in`, `for`, and `len`"""
 
     def __init__(self, graph_uri=None):
-        if not isinstance(graph_uri, NamedNode):
+        if graph_uri is not None and not isinstance(graph_uri, (NamedNode, BlankNode)):
             graph_uri = NamedNode(graph_uri)
         self._uri = graph_uri
         self._triples = set()
-- 
2.43.0


From 2e718ca69b86e52cb750f29892d2ef581ee032ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:16 +0000
Subject: [PATCH 05/59] fix: asking a Dataset about an unknown graph no longer
 creates that graph

---
 src/pymantic/primitives.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 9dca28d..81c939a 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -522,6 +522,8 @@ class Dataset:
         self._graphs[quad.graph].add(q_as_t(quad))
 
     def remove(self, quad):
+        if quad.graph not in self._graphs:
+            raise KeyError(quad)
         self._graphs[quad.graph].remove(q_as_t(quad))
 
     def add_graph(self, graph, named=None):
@@ -541,9 +543,9 @@ class Dataset:
 
     def match(self, subject=None, predicate=None, object=None, graph=None):
         if graph is not None:
-            matches = self._graphs[graph].match(subject, predicate, object)
-            for match in matches:
-                yield t_as_q(graph, match)
+            if graph in self._graphs:
+                for match in self._graphs[graph].match(subject, predicate, object):
+                    yield t_as_q(graph, match)
         else:
             for graph_uri, graph in self._graphs.items():
                 for match in graph.match(subject, predicate, object):
-- 
2.43.0


From b77eb8d3489b771e816196c9c83db5361c68185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:19 +0000
Subject: [PATCH 06/59] fix: Dataset.remove_graph removes the graph

---
 src/pymantic/primitives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 81c939a..784be9d 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -535,7 +535,9 @@ class Dataset:
             raise ValueError("Graph must be named")
 
     def remove_graph(self, graph_or_uri):
-        pass
+        if isinstance(graph_or_uri, Graph):
+            graph_or_uri = graph_or_uri.uri
+        del self._graphs[graph_or_uri]
 
     @property
     def graphs(self):
-- 
2.43.0


From 04802492063731d4f6d583a216419b4dc5ec80be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:22 +0000
Subject: [PATCH 07/59] fix: iterating a Dataset names each quad's graph by its
 name in that Dataset

---
 src/pymantic/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 784be9d..b28eef9 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -581,9 +581,9 @@ class Dataset:
                     return True
 
     def __iter__(self):
-        for graph in self._graphs.values():
+        for graph_uri, graph in self._graphs.items():
             for triple in graph:
-                yield t_as_q(graph.uri, triple)
+                yield t_as_q(graph_uri, triple)
 
     def toArray(self):
         return frozenset(self)
-- 
2.43.0


From 960a4945bcad41b9b60ab588a05e37473047a19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:25 +0000
Subject: [PATCH 08/59] fix: a Quad is written in N-Quads syntax

---
 src/pymantic/primitives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index b28eef9..5fc3d7d 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -211,7 +211,8 @@ class Quad(tuple):
     graph = property(itemgetter(3))
 
     def __str__(self):
-        return f"{str(self.subject)} {str(self.predicate)} {str(self.object)} {str(self.graph)} .\n"
+        graph = "" if self.graph is None else f"{self.graph.toNT()} "
+        return f"{self.subject.toNT()} {self.predicate.toNT()} {self.object.toNT()} {graph}.\n"
 
 
 def q_as_t(quad):
-- 
2.43.0


From 4fd236533d581710ba7743c275eac68a1a03a7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:23 +0000
Subject: [PATCH 09/59] fix: nt_escape escapes control characters instead of
 dropping them

---
 src/pymantic/serializers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index dffe7fe..77ffdb9 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -24,9 +24,9 @@ def nt_escape(node_string):
             and char <= "\u007E"
         ):
             output_string += char
-        elif char >= "\u007F" and char <= "\uFFFF":
+        elif char <= "\uFFFF":
             output_string += "\\u%04X" % ord(char)
-        elif char >= "\U00010000" and char <= "\U0010FFFF":
+        else:
             output_string += "\\U%08X" % ord(char)
     return output_string
 
-- 
2.43.0


From d06bb64063ed84645cde0aa965e9c7e199599b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:27 +0000
Subject: [PATCH 10/59] fix: N-Triples language tags may contain any digit (and
 no underscore)

---
 src/pymantic/parsers/lark/ntriples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 533cb4e..51aad40 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -33,7 +33,7 @@ quad: subject predicate object graph "."
 ?graph: iriref
 literal: STRING_LITERAL_QUOTE ("^^" iriref | LANGTAG)?
 
-LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0_9]/+)*
+LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0-9]/+)*
 EOL: /[\r\n]/+
 iriref: "<" (/[^\x00-\x20<>"{}|^`\\]/ | UCHAR)* ">"
 STRING_LITERAL_QUOTE: "\"" (/[^\x22\\\x0A\x0D]/ | ECHAR | UCHAR)* "\""
-- 
2.43.0


From 5771dacf33e781082de2e7e84e34b120399daad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:29 +0000
Subject: [PATCH 11/59] fix: N-Triples blank node labels use the characters of
 the specification

---
 src/pymantic/parsers/lark/ntriples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 51aad40..a76f6a7 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -40,7 +40,7 @@ STRING_LITERAL_QUOTE: "\"" (/[^\x22\\\x0A\x0D]/ | ECHAR | UCHAR)* "\""
 BLANK_NODE_LABEL: "_:" (PN_CHARS_U | "0".."9") ((PN_CHARS | ".")* PN_CHARS)?
 UCHAR: "\\u" HEX~4 | "\\U" HEX~8
 ECHAR: "\\" /[tbnrf"'\\]/
-PN_CHARS_BASE: /[A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\u10000-\uEFFFF]/
+PN_CHARS_BASE: /[A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]/
 PN_CHARS_U: PN_CHARS_BASE | "_" | ":"
 PN_CHARS: PN_CHARS_U | /[\-0-9\u00B7\u0300-\u036F\u203F-\u2040]/
 HEX: /[0-9A-Fa-f]/
-- 
2.43.0


From 617f391975faf9ff56f047bf914325164b283151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:33 +0000
Subject: [PATCH 12/59] fix: N-Triples IRIs containing whitespace are refused,
 not joined up

---
 src/pymantic/parsers/lark/ntriples.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index a76f6a7..c7b0302 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -35,7 +35,8 @@ literal: STRING_LITERAL_QUOTE ("^^" iriref | LANGTAG)?
 
 LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0-9]/+)*
 EOL: /[\r\n]/+
-iriref: "<" (/[^\x00-\x20<>"{}|^`\\]/ | UCHAR)* ">"
+iriref: IRIREF
+IRIREF: "<" (/[^\x00-\x20<>"{}|^`\\]/ | UCHAR)* ">"
 STRING_LITERAL_QUOTE: "\"" (/[^\x22\\\x0A\x0D]/ | ECHAR | UCHAR)* "\""
 BLANK_NODE_LABEL: "_:" (PN_CHARS_U | "0".."9") ((PN_CHARS | ".")* PN_CHARS)?
 UCHAR: "\\u" HEX~4 | "\\U" HEX~8
@@ -57,8 +58,8 @@ class NTriplesTransformer(BaseParser, Transformer):
         return self.make_blank_node(bn_label.value)
 
     def iriref(self, children):
-        iri = "".join(children)
-        iri = decode_literal(iri)
+        (iriref,) = children
+        iri = decode_literal(iriref[1:-1])  # Remove <>s
         return self.make_named_node(iri)
 
     def literal(self, children):
-- 
2.43.0


From 79fcec30a0894c9183673dfbf09f243850da8ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:25 +0000
Subject: [PATCH 13/59] fix: N-Triples and N-Quads accept comments and lines of
 whitespace

---
 src/pymantic/parsers/lark/ntriples.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index c7b0302..aa32ca3 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -18,10 +18,10 @@ from pymantic.util import decode_literal
 
 from .base import LarkParser
 
-grammar = r"""triples_start: triple? (EOL triple)* EOL?
+grammar = r"""triples_start: triple? (EOL+ triple)* EOL*
 triple: subject predicate object "."
 
-quads_start: quad? (EOL quad)* EOL?
+quads_start: quad? (EOL+ quad)* EOL*
 quad: subject predicate object graph "."
 
 ?subject: iriref
@@ -47,6 +47,8 @@ PN_CHARS: PN_CHARS_U | /[\-0-9\u00B7\u0300-\u036F\u203F-\u2040]/
 HEX: /[0-9A-Fa-f]/
 
 %ignore /[ \t]/+
+COMMENT: "#" /[^\r\n]/*
+%ignore COMMENT
 """
 
 
-- 
2.43.0


From fdb130c4635c27526a073eb97a2cfc2562027469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:29 +0000
Subject: [PATCH 14/59] fix: the N-Quads graph label is optional and may be a
 blank node

---
 src/pymantic/parsers/lark/nquads.py   | 3 ++-
 src/pymantic/parsers/lark/ntriples.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/parsers/lark/nquads.py b/src/pymantic/parsers/lark/nquads.py
index 1041663..3fba657 100644
--- a/src/pymantic/parsers/lark/nquads.py
+++ b/src/pymantic/parsers/lark/nquads.py
@@ -22,7 +22,8 @@ class NQuadsTransformer(NTriplesTransformer):
     """Transform the tokenized nquads into RDF primitives."""
 
     def quad(self, children):
-        subject, predicate, object_, graph = children
+        subject, predicate, object_, *graph = children
+        graph = graph[0] if graph else None
         return self.make_quad(subject, predicate, object_, graph)
 
     def quads_start(self, children):
diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index aa32ca3..9f8feea 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -22,7 +22,7 @@ grammar = r"""triples_start: triple? (EOL+ triple)* EOL*
 triple: subject predicate object "."
 
 quads_start: quad? (EOL+ quad)* EOL*
-quad: subject predicate object graph "."
+quad: subject predicate object graph? "."
 
 ?subject: iriref
         | BLANK_NODE_LABEL -> blank_node_label
@@ -31,6 +31,7 @@ quad: subject predicate object graph "."
        | BLANK_NODE_LABEL -> blank_node_label
        | literal
 ?graph: iriref
+      | BLANK_NODE_LABEL -> blank_node_label
 literal: STRING_LITERAL_QUOTE ("^^" iriref | LANGTAG)?
 
 LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0-9]/+)*
-- 
2.43.0


From f88e158546e5ff5bfb72f401cdbc96663ee1a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:32 +0000
Subject: [PATCH 15/59] fix: N-Quads parsed without a target make a Dataset,
 not a Graph that loses quads

---
 src/pymantic/parsers/lark/nquads.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymantic/parsers/lark/nquads.py b/src/pymantic/parsers/lark/nquads.py
index 3fba657..b861505 100644
--- a/src/pymantic/parsers/lark/nquads.py
+++ b/src/pymantic/parsers/lark/nquads.py
@@ -21,6 +21,9 @@ from .ntriples import NTriplesTransformer, grammar
 class NQuadsTransformer(NTriplesTransformer):
     """Transform the tokenized nquads into RDF primitives."""
 
+    def _make_graph(self):
+        return self.env.createDataset()
+
     def quad(self, children):
         subject, predicate, object_, *graph = children
         graph = graph[0] if graph else None
-- 
2.43.0


From 1b48e878aab0a2ad5d81c4dc6145e3760760b9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:36 +0000
Subject: [PATCH 16/59] fix: parsing a stream copes with blank lines and with
 CR line ends

---
 src/pymantic/parsers/lark/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/base.py b/src/pymantic/parsers/lark/base.py
index 06425cf..f5f262f 100644
--- a/src/pymantic/parsers/lark/base.py
+++ b/src/pymantic/parsers/lark/base.py
@@ -9,7 +9,7 @@ class LarkParser:
     def line_by_line_parser(self, stream):
         for line in stream:  # Equivalent to readline
             if line:
-                yield next(self.lark.parse(line))
+                yield from self.lark.parse(line)
 
     def parse(self, string_or_stream, graph=None):
         """Parse a string or file-like object into RDF primitives and add
-- 
2.43.0


From cb8d50721b245ef7474879d3ae434b5b269bc6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 17/59] fix: property lists and collections inside a Turtle
 object list are read as nodes

---
 src/pymantic/parsers/lark/turtle.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index cde16f6..2f569a5 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -122,16 +122,15 @@ def unpack_predicate_object_list(subject, pol):
                 raise ValueError(predicate)
             predicate = RDF_TYPE
 
-        if not isinstance(object_, (NamedNode, Literal, BlankNode)):
-            if isinstance(object_, Tree):
-                object_ = object_.children
-            for triple_or_node in object_:
-                if isinstance(triple_or_node, Triple):
-                    yield triple_or_node
-                else:
-                    object_ = triple_or_node
-                    yield Triple(subject, predicate, object_)
-        else:
+        objects = object_.children if isinstance(object_, Tree) else [object_]
+        for object_ in objects:
+            if not isinstance(object_, (NamedNode, Literal, BlankNode)):
+                for triple_or_node in object_:
+                    if isinstance(triple_or_node, Triple):
+                        yield triple_or_node
+                    else:
+                        object_ = triple_or_node
+                        break
             yield Triple(subject, predicate, object_)
 
 
-- 
2.43.0


From 4b89eb269822d0298ba81c2a7116993bb226a55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:11 +0000
Subject: [PATCH 18/59] fix: Turtle can be parsed from a stream

---
 src/pymantic/parsers/lark/turtle.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index 2f569a5..a5aa9cf 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -288,10 +288,8 @@ def parse(string_or_stream, graph=None, base=""):
         # Presume string.
         string = string_or_stream
 
-    if isinstance(string_or_stream, bytes):
-        string = string_or_stream.decode("utf-8")
-    else:
-        string = string_or_stream
+    if isinstance(string, bytes):
+        string = string.decode("utf-8")
 
     tree = turtle_lark.parse(string)
     tr = TurtleTransformer(base_iri=base)
-- 
2.43.0


From 6e92fe5526668ac1c7cdffd25b9a9e2c73840875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:15 +0000
Subject: [PATCH 19/59] fix: a comment in Turtle ends at a carriage return too

---
 src/pymantic/parsers/lark/turtle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index a5aa9cf..c08cd65 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -91,7 +91,7 @@ HEX: /[0-9A-Fa-f]/
 PN_LOCAL_ESC: "\\" /[_~\.\-!$&'()*+,;=\/?#@%]/
 
 %ignore WS
-COMMENT: "#" /[^\n]/*
+COMMENT: "#" /[^\r\n]/*
 %ignore COMMENT
 """
 
-- 
2.43.0


From 047bafdb210c267dbcc336edb62a1235142038f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:27 +0000
Subject: [PATCH 20/59] fix: relative IRIs are resolved by RFC 3986 for every
 scheme, absolute ones kept as written

---
 src/pymantic/util.py | 69 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 61 insertions(+), 8 deletions(-)

diff --git a/src/pymantic/util.py b/src/pymantic/util.py
index 47cb589..579ab30 100644
--- a/src/pymantic/util.py
+++ b/src/pymantic/util.py
@@ -89,15 +89,68 @@ def quote_normalized_iri(normalized_iri):
     return quote(normalized_uri, safe="".join(reserved_in_iri))
 
 
+iri_reference_re = re.compile(
+    r"(?:([A-Za-z][A-Za-z0-9+.-]*):)?(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?",
+    re.DOTALL,
+)
+
+
+def remove_dot_segments(path):
+    """RFC 3986, section 5.2.4."""
+    output = ""
+    while path:
+        if path.startswith("../") or path.startswith("./"):
+            path = path.partition("/")[2]
+        elif path.startswith("/./") or path == "/.":
+            path = "/" + path[3:]
+        elif path.startswith("/../") or path == "/..":
+            path = "/" + path[4:]
+            output = output.rpartition("/")[0]
+        elif path in (".", ".."):
+            path = ""
+        else:
+            end = path.find("/", 1)
+            end = len(path) if end == -1 else end
+            output += path[:end]
+            path = path[end:]
+    return output
+
+
 def smart_urljoin(base, url):
-    """urljoin, only an empty fragment from the relative(?) URL will be
-    preserved.
-    """
-    from urllib.parse import urljoin
-
-    joined = urljoin(base, url)
-    if url.endswith("#") and not joined.endswith("#"):
-        joined += "#"
+    """Resolve a reference as described by RFC 3986, section 5.2, whatever the
+    scheme. Empty queries and fragments are preserved, and references that
+    have a scheme are returned unchanged."""
+    scheme, authority, path, query, fragment = iri_reference_re.fullmatch(url).groups()
+    if scheme is not None or not base:
+        return url
+    base_scheme, base_authority, base_path, base_query, _ = iri_reference_re.fullmatch(
+        base
+    ).groups()
+
+    if authority is not None:
+        path = remove_dot_segments(path)
+    else:
+        authority = base_authority
+        if not path:
+            path = base_path
+            if query is None:
+                query = base_query
+        else:
+            if not path.startswith("/"):
+                if base_authority is not None and not base_path:
+                    path = "/" + path
+                else:
+                    path = base_path[: base_path.rfind("/") + 1] + path
+            path = remove_dot_segments(path)
+
+    joined = "" if base_scheme is None else base_scheme + ":"
+    if authority is not None:
+        joined += "//" + authority
+    joined += path
+    if query is not None:
+        joined += "?" + query
+    if fragment is not None:
+        joined += "#" + fragment
     return joined
 
 
-- 
2.43.0


From 9f4846554d789c70792a34196215657d4a871ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:51 +0000
Subject: [PATCH 21/59] fix: Turtle nested too deeply to read no longer leaves
 part of it in the graph

---
 src/pymantic/parsers/lark/turtle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index c08cd65..8d2fe03 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -297,7 +297,8 @@ def parse(string_or_stream, graph=None, base=""):
         graph = tr._make_graph()
     tr._prepare_parse(graph)
 
-    graph.addAll(tr.transform(tree))
+    # Only touch the graph once the whole document has proved readable.
+    graph.addAll(list(tr.transform(tree)))
 
     return graph
 
-- 
2.43.0


From df34e20b089662b6dde90c975f21b60bd8637f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:16 +0000
Subject: [PATCH 22/59] fix: a Turtle IRI ending in an escaped line feed is
 refused

---
 src/pymantic/parsers/lark/turtle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index 8d2fe03..35850e4 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -102,7 +102,7 @@ LEGAL_IRI = re.compile(r'^[^\x00-\x20<>"{}|^`\\]*$')
 
 
 def validate_iri(iri):
-    if not LEGAL_IRI.match(iri):
+    if not LEGAL_IRI.fullmatch(iri):
         raise ValueError("Illegal characters in IRI: " + iri)
     return iri
 
-- 
2.43.0


From b2b60f548b5b9aeee9dadf1016704f31a081676d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:29 +0000
Subject: [PATCH 23/59] fix: blank nodes can be serialized to Turtle

---
 src/pymantic/serializers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 77ffdb9..0fe6ff4 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -46,7 +46,7 @@ def serialize_nquads(dataset, f):
 def default_bnode_name_generator():
     i = 0
     while True:
-        yield "_b" + str(i)
+        yield "_:b" + str(i)
         i += 1
 
 
@@ -83,7 +83,7 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
         if node in name_map:
             name = name_map[node]
         else:
-            name = bnode_name_maker.next()
+            name = next(bnode_name_maker)
             name_map[node] = name
     elif node.interfaceName == "Literal":
         if node.datatype == profile.resolve("xsd:string"):
-- 
2.43.0


From f685360facfaef42b62bbfca7a4a462f98b02c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:33 +0000
Subject: [PATCH 24/59] fix: special characters in strings are escaped in
 Turtle output

---
 src/pymantic/serializers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 0fe6ff4..9932d2a 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -61,9 +61,7 @@ def turtle_string_escape(string):
     """Escape a string appropriately for output in turtle form."""
     from pymantic.util import ECHAR_MAP
 
-    for escaped, value in ECHAR_MAP.items():
-        string = string.replace(value, "\\" + escaped)
-    return '"' + string + '"'
+    return '"' + "".join(ECHAR_MAP.get(char, char) for char in string) + '"'
 
 
 def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
-- 
2.43.0


From 5ea4410f221748a5861ab17b898a875d6ffdf8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:16 +0000
Subject: [PATCH 25/59] fix: local names are escaped in Turtle output, and IRIs
 that cannot be abbreviated are not

---
 src/pymantic/serializers.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 9932d2a..55dfd5d 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -1,4 +1,5 @@
 from collections import OrderedDict
+import re
 
 
 def nt_escape(node_string):
@@ -50,10 +51,30 @@ def default_bnode_name_generator():
         i += 1
 
 
+PN_CHARS = (
+    "A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF"
+    "\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF"
+    "\uFDF0-\uFFFD\U00010000-\U000EFFFF_0-9\u00B7\u0300-\u036F\u203F-\u2040-"
+)
+
+pn_local_re = re.compile(
+    rf"(?:(?![-.\u00B7\u0300-\u036F\u203F-\u2040])(?:[{PN_CHARS}:]|\\.)"
+    rf"(?:[{PN_CHARS}:.]|\\.)*)?(?<!(?<!\\)\.)"
+)
+
+
 def escape_prefix_local(prefix):
+    """Escape the local part of a prefixed name. Returns None if there is no
+    way of writing it as a prefixed name."""
     prefix, colon, local = prefix.partition(":")
-    for esc_char in "~.-!$&'()*+,;=:/?#@%_":
+    for esc_char in "~!$&'()*+,;=/?#@%":
         local = local.replace(esc_char, "\\" + esc_char)
+    if local[:1] in ("-", "."):
+        local = "\\" + local
+    if local[-1:] == "." and local != "\\.":
+        local = local[:-1] + "\\."
+    if not pn_local_re.fullmatch(local):
+        return None
     return "".join((prefix, colon, local))
 
 
@@ -75,8 +96,8 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
                 name = f"<{str(name.replace(base, ''))}>"
         if name == node:
             name = f"<{str(name)}>"
-        else:
-            escape_prefix_local(name)
+        elif not name.startswith("<"):
+            name = escape_prefix_local(name) or f"<{str(node)}>"
     elif node.interfaceName == "BlankNode":
         if node in name_map:
             name = name_map[node]
-- 
2.43.0


From 560beef4d1acd9bb05508138bc5c83cbf28d18e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:20 +0000
Subject: [PATCH 26/59] fix: to_curie abbreviates only the start of the IRI

---
 src/pymantic/primitives.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 5fc3d7d..b05b453 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -106,10 +106,11 @@ def to_curie(uri, namespaces, seperator=":", explicit=False):
             matches.append((prefix, namespace))
     if len(matches) > 0:
         prefix, namespace = sorted(matches, key=lambda pair: -len(pair[1]))[0]
+        curie = prefix + seperator + uri[len(namespace) :]
         if explicit:
-            return f"[{uri.replace(namespace, prefix + seperator)}]"
+            return f"[{curie}]"
         else:
-            return uri.replace(namespace, prefix + seperator)
+            return curie
     return uri
 
 
-- 
2.43.0


From d3832669d741b899b2fdaeef4bcc24eb1d33ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:23 +0000
Subject: [PATCH 27/59] fix: Turtle output uses relative IRIs only where they
 mean the same IRI

---
 src/pymantic/serializers.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 55dfd5d..d208863 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -1,6 +1,8 @@
 from collections import OrderedDict
 import re
 
+from pymantic.util import smart_urljoin
+
 
 def nt_escape(node_string):
     """Properly escape strings for n-triples and n-quads serialization."""
@@ -88,16 +90,19 @@ def turtle_string_escape(string):
 def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
     """Turn a node in an RDF graph into its turtle representation."""
     if node.interfaceName == "NamedNode":
-        name = profile.prefixes.shrink(node)
-        if base and name.startswith(base):
+        name = None
+        curie = profile.prefixes.shrink(node)
+        if curie != node:
+            name = escape_prefix_local(curie)
+        if name is None and base and node.startswith(base):
+            relative = node[len(base) :]
             if base.endswith("#"):
-                name = f"<{str(name.replace(base, '#'))}>"
-            else:
-                name = f"<{str(name.replace(base, ''))}>"
-        if name == node:
-            name = f"<{str(name)}>"
-        elif not name.startswith("<"):
-            name = escape_prefix_local(name) or f"<{str(node)}>"
+                relative = "#" + relative
+            # Not every remainder means the same thing as a reference.
+            if smart_urljoin(base, relative) == node:
+                name = f"<{relative}>"
+        if name is None:
+            name = f"<{str(node)}>"
     elif node.interfaceName == "BlankNode":
         if node in name_map:
             name = name_map[node]
-- 
2.43.0


From ae13da8627e3b70920c8fce8896e84c4f0b13fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:25 +0000
Subject: [PATCH 28/59] fix: Turtle output uses number and boolean shorthand
 only where it reads back

---
 src/pymantic/serializers.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index d208863..107a638 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -87,6 +87,17 @@ def turtle_string_escape(string):
     return '"' + "".join(ECHAR_MAP.get(char, char) for char in string) + '"'
 
 
+XSD = "http://www.w3.org/2001/XMLSchema#"
+
+turtle_shorthand = {
+    XSD + "integer": re.compile(r"[+-]?[0-9]+"),
+    XSD + "decimal": re.compile(r"[+-]?[0-9]*\.[0-9]+"),
+    XSD
+    + "double": re.compile(r"[+-]?([0-9]+\.[0-9]*|\.?[0-9]+)[eE][+-]?[0-9]+"),
+    XSD + "boolean": re.compile(r"true|false"),
+}
+
+
 def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
     """Turn a node in an RDF graph into its turtle representation."""
     if node.interfaceName == "NamedNode":
@@ -110,24 +121,21 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
             name = next(bnode_name_maker)
             name_map[node] = name
     elif node.interfaceName == "Literal":
-        if node.datatype == profile.resolve("xsd:string"):
-            # Simple string.
-            name = turtle_string_escape(node.value)
-        elif node.datatype is None:
+        if node.datatype is None:
             # String with language?
             name = turtle_string_escape(node.value)
             if node.language:
                 name += "@" + node.language
-        elif node.datatype == profile.resolve("xsd:integer"):
-            name = node.value
-        elif node.datatype == profile.resolve("xsd:decimal"):
-            name = node.value
-        elif node.datatype == profile.resolve("xsd:double"):
-            name = node.value
-        elif node.datatype == profile.resolve("xsd:boolean"):
+        elif node.datatype == XSD + "string":
+            # Simple string.
+            name = turtle_string_escape(node.value)
+        elif (
+            node.datatype in turtle_shorthand
+            and turtle_shorthand[node.datatype].fullmatch(node.value)
+        ):
             name = node.value
         else:
-            # Unrecognized data-type.
+            # Unrecognized data-type, or a value that has no short form.
             name = turtle_string_escape(node.value)
             name += "^" + turtle_repr(node.datatype, profile, None, None)
     return name
-- 
2.43.0


From 3ba80d4f3d617444a8f22f8edbda0ad71af650b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:28 +0000
Subject: [PATCH 29/59] fix: serialize_turtle marks datatypes with ^^

---
 src/pymantic/serializers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 107a638..ee275ae 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -98,7 +98,9 @@ turtle_shorthand = {
 }
 
 
-def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
+def turtle_repr(
+    node, profile, name_map, bnode_name_maker, base=None, datatype_mark="^"
+):
     """Turn a node in an RDF graph into its turtle representation."""
     if node.interfaceName == "NamedNode":
         name = None
@@ -137,7 +139,7 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
         else:
             # Unrecognized data-type, or a value that has no short form.
             name = turtle_string_escape(node.value)
-            name += "^" + turtle_repr(node.datatype, profile, None, None)
+            name += datatype_mark + turtle_repr(node.datatype, profile, None, None)
     return name
 
 
@@ -167,7 +169,7 @@ def serialize_turtle(
     bnode_name_maker = bnode_name_generator()
 
     def name_maker(n):
-        return turtle_repr(n, profile, name_map, bnode_name_maker, base)
+        return turtle_repr(n, profile, name_map, bnode_name_maker, base, "^^")
 
     from pymantic.rdf import List
 
-- 
2.43.0


From 63ca269865153f51322085fbf2958d2a63280bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:32 +0000
Subject: [PATCH 30/59] fix: an rdf prefix the caller rebound is declared in
 Turtle output

---
 src/pymantic/serializers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index ee275ae..2115c24 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -87,6 +87,7 @@ def turtle_string_escape(string):
     return '"' + "".join(ECHAR_MAP.get(char, char) for char in string) + '"'
 
 
+RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
 XSD = "http://www.w3.org/2001/XMLSchema#"
 
 turtle_shorthand = {
@@ -162,7 +163,8 @@ def serialize_turtle(
 
         profile = Profile()
     for prefix, iri in profile.prefixes.items():
-        if prefix != "rdf":
+        # The parser predefines this one.
+        if (prefix, iri) != ("rdf", RDF):
             f.write("@prefix " + prefix + ": <" + iri + "> .\n")
 
     name_map = OrderedDict()
-- 
2.43.0


From 150f8398abcb63b0e1e58d3aa1837e96c3bad0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:31 +0000
Subject: [PATCH 31/59] fix: Turtle list syntax only where it stands for the
 same statements

---
 src/pymantic/serializers.py | 71 ++++++++++++++++++++++++++++++-------
 1 file changed, 59 insertions(+), 12 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 2115c24..8002b54 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -1,4 +1,4 @@
-from collections import OrderedDict
+from collections import Counter, OrderedDict
 import re
 
 from pymantic.util import smart_urljoin
@@ -149,6 +149,55 @@ def turtle_sorted_names(nodes, name_maker):
     return sorted((name_maker(node), node) for node in nodes)
 
 
+def turtle_lists(graph):
+    """Find the parts of a graph that turtle's list syntax can stand for. Maps
+    the blank nodes heading them to (their cells, their items). A list is only
+    eligible if each of its cells has one rdf:first, one rdf:rest and nothing
+    else, and the graph refers to each cell from exactly one place."""
+    statements, references = {}, Counter()
+    for triple in graph:
+        statements.setdefault(triple.subject, []).append(triple)
+        references[triple.object] += 1
+
+    cells = {}
+    for subject, triples in statements.items():
+        if (
+            subject.interfaceName == "BlankNode"
+            and references[subject] == 1
+            and sorted(t.predicate for t in triples) == [RDF + "first", RDF + "rest"]
+        ):
+            cell = {t.predicate: t.object for t in triples}
+            cells[subject] = cell[RDF + "first"], cell[RDF + "rest"]
+
+    lists = {}
+    tails = set(rest for first, rest in cells.values())
+    for head in cells:
+        if head not in tails:
+            chain, items, node = [], [], head
+            while node in cells:
+                chain.append(node)
+                first, node = cells[node]
+                items.append(first)
+            if node == RDF + "nil":
+                lists[head] = chain, items
+
+    # Lists that contain each other in a circle can't all be written in place.
+    inside = set(cell for chain, items in lists.values() for cell in chain)
+    pending = [
+        triple.object
+        for subject, triples in statements.items()
+        if subject not in inside
+        for triple in triples
+    ]
+    placed = {}
+    while pending:
+        node = pending.pop()
+        if node in lists:
+            placed[node] = lists[node]
+            pending.extend(lists[node][1])
+    return placed
+
+
 def serialize_turtle(
     graph, f, base=None, profile=None, bnode_name_generator=default_bnode_name_generator
 ):
@@ -173,9 +222,15 @@ def serialize_turtle(
     def name_maker(n):
         return turtle_repr(n, profile, name_map, bnode_name_maker, base, "^^")
 
-    from pymantic.rdf import List
+    lists = turtle_lists(graph)
+
+    def object_maker(n):
+        if n in lists:
+            return "(" + " ".join(object_maker(item) for item in lists[n][1]) + ")"
+        return name_maker(n)
 
-    subjects = [subj for subj in graph.subjects() if not List.is_list(subj, graph)]
+    cells = set(cell for chain, items in lists.values() for cell in chain)
+    subjects = [subj for subj in graph.subjects() if subj not in cells]
 
     for subject_name, subject in turtle_sorted_names(subjects, name_maker):
         subj_indent_size = len(subject_name) + 1
@@ -192,14 +247,6 @@ def serialize_turtle(
             ):
                 if j != 0:
                     f.write(",\n" + " " * pred_indent_size)
-                if List.is_list(triple.object, graph):
-                    f.write("(")
-                    for k, o in enumerate(List(graph, triple.object)):
-                        if k != 0:
-                            f.write(" ")
-                        f.write(name_maker(o))
-                    f.write(")")
-                else:
-                    f.write(name_maker(triple.object))
+                f.write(object_maker(triple.object))
             f.write(" ;\n")
         f.write(" " * subj_indent_size + ".\n\n")
-- 
2.43.0


From 17bc89f422b05dccf68e425ce235820376a5f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:48 +0000
Subject: [PATCH 32/59] fix: JSON-LD language-tagged literals carry no
 datatype, as in the other formats

---
 src/pymantic/parsers/jsonld.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index 29541fa..788f9b1 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -51,13 +51,14 @@ class PyLDLoader(BaseParser):
         elif triple_fragment["type"] == "blank node":
             return self._call_state.bnodes[triple_fragment["value"]]
         elif triple_fragment["type"] == "literal":
-            language = None
             if "language" in triple_fragment:
-                language = triple_fragment["language"]
+                return self.env.createLiteral(
+                    value=triple_fragment["value"],
+                    language=triple_fragment["language"],
+                )
             return self.env.createLiteral(
                 value=triple_fragment["value"],
                 datatype=self.env.createNamedNode(triple_fragment["datatype"]),
-                language=language,
             )
 
     def process_jobj(self, jobj, options=None):
-- 
2.43.0


From 1269467bda0c810c2c0f5aec79883950060a14fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:50 +0000
Subject: [PATCH 33/59] fix: JSON-LD graphs named by a blank node keep that
 node as their name

---
 src/pymantic/parsers/jsonld.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index 788f9b1..97c0b58 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -66,11 +66,12 @@ class PyLDLoader(BaseParser):
 
         dataset = to_rdf(jobj, options=options)
         for graph_name, triples in dataset.items():
-            graph_iri = (
-                self.env.createNamedNode(graph_name)
-                if graph_name != "@default"
-                else None
-            )
+            if graph_name == "@default":
+                graph_iri = None
+            elif graph_name.startswith("_:"):
+                graph_iri = self._call_state.bnodes[graph_name]
+            else:
+                graph_iri = self.env.createNamedNode(graph_name)
             for triple in triples:
                 self.make_quad(
                     (
-- 
2.43.0


From dcd4bd0a873a05c748cc504e611362a8ee59b9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:53 +0000
Subject: [PATCH 34/59] fix: jsonld_parser.document.parse and parse_file return
 the dataset

---
 src/pymantic/parsers/jsonld.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index 97c0b58..b2b4f48 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -18,11 +18,11 @@ class PyLDLoader(BaseParser):
 
         def parse_file(self, f):
             jobj = json.load(f)
-            self.pyld_loader.process_jobj(jobj)
+            return self.pyld_loader.parse_json(jobj)
 
         def parse(self, string):
             jobj = json.loads(string)
-            self.pyld_loader.process_jobj(jobj)
+            return self.pyld_loader.parse_json(jobj)
 
     def parse_json(self, jobj, sink=None, options=None):
         if sink is None:
-- 
2.43.0


From e6761f6d72a9b3007fe7ab095aeaef079906cb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:59 +0000
Subject: [PATCH 35/59] fix: a CURIE with an empty reference is resolved with
 its own prefix

---
 src/pymantic/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index b05b453..9cdf4e5 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -72,7 +72,7 @@ def parse_curie(curie, prefixes):
     if not definitely_curie:
         if prefix in uri_schemes.schemes:
             return NamedNode(curie)
-    if not reference and "" in prefixes:
+    if not sep and "" in prefixes:
         reference = prefix
         return Prefix(prefixes[""])(reference)
     if prefix in prefixes:
-- 
2.43.0


From b55cdb7d380318376a8c4c04d83a18196855ced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:03 +0000
Subject: [PATCH 36/59] fix: a name without colon is not an IRI even if it is
 spelled like a URI scheme

---
 src/pymantic/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 9cdf4e5..ae9eef7 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -69,7 +69,7 @@ def parse_curie(curie, prefixes):
         curie = curie[1:-1]
         definitely_curie = True
     prefix, sep, reference = curie.partition(":")
-    if not definitely_curie:
+    if sep and not definitely_curie:
         if prefix in uri_schemes.schemes:
             return NamedNode(curie)
     if not sep and "" in prefixes:
-- 
2.43.0


From 1736341e560929eeee178ff427522416b75b2117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:05 +0000
Subject: [PATCH 37/59] fix: the empty CURIE is a ValueError, not an IndexError

---
 src/pymantic/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index ae9eef7..72e74d1 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -65,7 +65,7 @@ def parse_curie(curie, prefixes):
     3) If the CURIE's namespace cannot be resolved, a ValueError is raised.
     """
     definitely_curie = False
-    if curie[0] == "[" and curie[-1] == "]":
+    if curie[:1] == "[" and curie[-1] == "]":
         curie = curie[1:-1]
         definitely_curie = True
     prefix, sep, reference = curie.partition(":")
-- 
2.43.0


From 8a6ce6ace41c26f076c26ca6c76265215ac26c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:53 +0000
Subject: [PATCH 38/59] fix: a Profile keeps the map it is given even if it is
 still empty

---
 src/pymantic/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 72e74d1..3c458e6 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -736,8 +736,8 @@ class Profile:
     Terms and IRIs."""
 
     def __init__(self, prefixes=None, terms=None):
-        self.prefixes = prefixes or PrefixMap()
-        self.terms = terms or TermMap()
+        self.prefixes = prefixes if prefixes is not None else PrefixMap()
+        self.terms = terms if terms is not None else TermMap()
         if "rdf" not in self.prefixes:
             self.prefixes["rdf"] = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
         if "xsd" not in self.prefixes:
-- 
2.43.0


From 78f1a3ecb6aa6096b3fa9a85b484cdebdfa9e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:55 +0000
Subject: [PATCH 39/59] fix: a profile created by an environment has maps of
 its own

---
 src/pymantic/primitives.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 3c458e6..95015c3 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -830,13 +830,16 @@ class RDFEnvironment(Profile):
         if empty:
             return Profile()
         else:
-            return Profile(self.prefixes, self.terms)
+            return Profile(self.createPrefixMap(), self.createTermMap())
 
     def createTermMap(self, empty=False):
         if empty:
             return TermMap()
         else:
-            return TermMap(self.terms)
+            terms = TermMap(self.terms)
+            if hasattr(self.terms, "default"):
+                terms.setDefault(self.terms.default)
+            return terms
 
     def createPrefixMap(self, empty=False):
         if empty:
-- 
2.43.0


From aa91a278c365c71747c43e28e1ac6055a3682987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:34 +0000
Subject: [PATCH 40/59] fix: object references can be assigned under a language
 or datatype filter

---
 src/pymantic/rdf.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 5c0a48d..ec16847 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -513,7 +513,7 @@ class Resource(metaclass=MetaResource):
         dictionary-style set with explicit type information."""
         if not check_objects(self.graph, value, lang, datatype, rdf_class):
             raise ValueError("Improper value provided.")
-        if lang and predicate in self.scalars:
+        if lang and predicate in self.scalars and not isinstance(value, Resource):
             return (
                 self.objects_by_lang(predicate, lang)
                 + self.objects_by_datatype(predicate)
@@ -603,20 +603,21 @@ def check_objects(graph, value, lang, datatype, rdf_class):
     if isinstance(value, frozenset) or (
         isinstance(value, tuple) and not isinstance(value, Literal)
     ):
-        for v in value:
-            if (
-                (
-                    lang
-                    and (not hasattr(v, "language") or not lang_match(v.language, lang))
-                )
-                or (datatype and v.datatype != datatype)
-                or (rdf_class and not isinstance(v, rdf_class))
-            ):
-                return False
-        return True
+        return all(check_object(v, lang, datatype, rdf_class) for v in value)
     else:
-        return (
-            (lang and lang_match(value.language, lang))
-            or (datatype and value.datatype == datatype)
-            or (rdf_class and isinstance(value, rdf_class))
-        )
+        return check_object(value, lang, datatype, rdf_class)
+
+
+def check_object(value, lang, datatype, rdf_class):
+    """Determine that a single value is appropriate for an object access key."""
+    if rdf_class:
+        return isinstance(value, rdf_class)
+    elif isinstance(value, Resource):
+        # References are acceptable under any language or datatype.
+        return bool(lang or datatype)
+    elif lang:
+        return lang_match(value.language, lang)
+    elif datatype:
+        return value.datatype == datatype
+    else:
+        return False
-- 
2.43.0


From 92d866028bbd2b4c035b886807866782d760cdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:37 +0000
Subject: [PATCH 41/59] fix: bare, xsd:string and None filters work for
 assignment, and select xsd:string literals

---
 src/pymantic/rdf.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index ec16847..29583f3 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -17,6 +17,8 @@ from pymantic.primitives import (
 )
 import pymantic.util as util
 
+XSD_STRING = NamedNode("http://www.w3.org/2001/XMLSchema#string")
+
 log = logging.getLogger(__name__)
 
 
@@ -187,6 +189,12 @@ class Resource(metaclass=MetaResource):
             and t.object.datatype is None
         ]
 
+    def plain_literals(self, predicate):
+        """Objects for a predicate that are bare or xsd:string Literals."""
+        return self.bare_literals(predicate) + self.objects_by_datatype(
+            predicate, XSD_STRING
+        )
+
     def objects_by_lang(self, predicate, lang=None):
         """Objects for a predicate that match a specified language or, if
         language is None, have a language specified."""
@@ -453,7 +461,7 @@ class Resource(metaclass=MetaResource):
         """Deal with xsd:string vs. plain literal"""
         if datatype == "":
             return ""
-        elif datatype == "http://www.w3.org/2001/XMLSchema#string":
+        elif datatype == XSD_STRING:
             return ""
         else:
             return datatype
@@ -483,7 +491,7 @@ class Resource(metaclass=MetaResource):
         elif rdf_class:
             objects = self.objects_by_type(predicate, rdf_class)
         elif lang == "" or datatype == "":
-            objects = self.bare_literals(predicate)
+            objects = self.plain_literals(predicate)
         else:
             raise KeyError("Invalid key: " + repr(key))
         return predicate, objects
@@ -531,6 +539,10 @@ class Resource(metaclass=MetaResource):
             )
         elif rdf_class:
             return self.objects_by_type(predicate, rdf_class)
+        elif lang == "" or datatype == "":
+            return self.plain_literals(predicate)
+        else:
+            return self.objects(predicate)
 
     def copy(self, target_subject):
         """Create copies of all triples with this resource as their subject
@@ -592,7 +604,7 @@ def objectify_value(graph, value, lang=None, datatype=None):
     elif isinstance(value, Literal) or isinstance(value, Resource):
         return value
     elif isinstance(value, str):
-        return Literal(value, language=lang, datatype=datatype)
+        return Literal(value, language=lang or None, datatype=datatype or None)
     else:
         return Literal(value)
 
@@ -614,10 +626,12 @@ def check_object(value, lang, datatype, rdf_class):
         return isinstance(value, rdf_class)
     elif isinstance(value, Resource):
         # References are acceptable under any language or datatype.
-        return bool(lang or datatype)
+        return True
     elif lang:
         return lang_match(value.language, lang)
     elif datatype:
         return value.datatype == datatype
+    elif lang == "" or datatype == "":
+        return value.language is None and value.datatype in (None, XSD_STRING)
     else:
-        return False
+        return True
-- 
2.43.0


From 2e7a1d990d57ea9ff4b57652500d802d5eae5415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:41 +0000
Subject: [PATCH 42/59] fix: a sequence is refused for a scalar under a filter
 too

---
 src/pymantic/rdf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 29583f3..86a55a5 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -521,6 +521,12 @@ class Resource(metaclass=MetaResource):
         dictionary-style set with explicit type information."""
         if not check_objects(self.graph, value, lang, datatype, rdf_class):
             raise ValueError("Improper value provided.")
+        if (
+            predicate in self.scalars
+            and isinstance(value, frozenset)
+            and not (lang is None and datatype is None and rdf_class is None)
+        ):
+            raise ValueError("Cannot store sequences in scalars")
         if lang and predicate in self.scalars and not isinstance(value, Resource):
             return (
                 self.objects_by_lang(predicate, lang)
-- 
2.43.0


From 0ccfc1ad64a817119ae08d72bf02e3e771d06a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:53 +0000
Subject: [PATCH 43/59] fix: a resource key that resolves to nothing is a
 ValueError

---
 src/pymantic/rdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 86a55a5..f560cdf 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -159,7 +159,10 @@ class Resource(metaclass=MetaResource):
         try:
             return cls.prefixes.resolve(key)
         except ValueError:
-            return cls.global_profile.resolve(key)
+            resolved = cls.global_profile.resolve(key)
+            if resolved is None:
+                raise ValueError(f"Could not resolve {key}")
+            return NamedNode(resolved)
 
     def __eq__(self, other):
         if isinstance(other, Resource):
-- 
2.43.0


From 589e49e481d672b2cdc4855ce02ac6a01ee1a2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:56 +0000
Subject: [PATCH 44/59] fix: Resource.new without a subject makes a blank node

---
 src/pymantic/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index f560cdf..7003d8f 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -131,7 +131,7 @@ class Resource(metaclass=MetaResource):
         # graph.bind(prefix, Prefix)
         if subject is None:
             subject = BlankNode()
-        if not isinstance(subject, NamedNode):
+        if not isinstance(subject, (NamedNode, BlankNode)):
             subject = NamedNode(subject)
         for rdf_class in cls.rdf_classes:
             graph.add(Triple(subject, cls.resolve("rdf:type"), rdf_class))
-- 
2.43.0


From ca04e698c6e008617671cbce333dfc0071138410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:58 +0000
Subject: [PATCH 45/59] fix: Resource.copy adds triples

---
 src/pymantic/rdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 7003d8f..b7570c5 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -561,8 +561,8 @@ class Resource(metaclass=MetaResource):
             target_subject, BlankNode
         ):
             target_subject = NamedNode(target_subject)
-        for t in self.graph.match(self.subject, None, None):
-            self.graph.add((target_subject, t.predicate, t.object))
+        for t in list(self.graph.match(self.subject, None, None)):
+            self.graph.add(Triple(target_subject, t.predicate, t.object))
         return self.classify(self.graph, target_subject)
 
     def as_(self, target_class):
-- 
2.43.0


From 9825d2455e533df3f388660c46bde157b298bc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:01 +0000
Subject: [PATCH 46/59] fix: in_graph requires every type of the class

---
 src/pymantic/rdf.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index b7570c5..c41a359 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -373,22 +373,13 @@ class Resource(metaclass=MetaResource):
     @classmethod
     def in_graph(cls, graph):
         """Iterate through all instances of this Resource in the graph."""
-        subjects = set()
-        for rdf_class in cls.rdf_classes:
-            if not subjects:
-                subjects.update(
-                    [
-                        t.subject
-                        for t in graph.match(None, cls.resolve("rdf:type"), rdf_class)
-                    ]
-                )
-            else:
-                subjects.intersection_update(
-                    [
-                        t.subject
-                        for t in graph.match(None, cls.resolve("rdf:type"), rdf_class)
-                    ]
-                )
+        by_class = [
+            set(
+                t.subject for t in graph.match(None, cls.resolve("rdf:type"), rdf_class)
+            )
+            for rdf_class in cls.rdf_classes
+        ]
+        subjects = set.intersection(*by_class) if by_class else set()
         return set(cls(graph, subject) for subject in subjects)
 
     def __repr__(self):
-- 
2.43.0


From 244aa6b78934f45def371fa4f4d33d319170cde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:05 +0000
Subject: [PATCH 47/59] fix: classification depends only on types and
 registered classes

---
 src/pymantic/rdf.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index c41a359..afe2a20 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -408,26 +408,30 @@ class Resource(metaclass=MetaResource):
         types = frozenset(
             [t.object for t in graph.match(obj, cls.resolve("rdf:type"), None)]
         )
-        python_classes = tuple(
+        # Each class once, in an order that doesn't depend on how the types or
+        # classes came about, and subclasses before their bases.
+        python_classes = dict.fromkeys(
             cls._meta_resource._classes[t]
-            for t in types
+            for t in sorted(types, key=str)
             if t in cls._meta_resource._classes
         )
+        python_classes = tuple(sorted(python_classes, key=lambda c: -len(c.__mro__)))
         if len(python_classes) == 0:
             return Resource(graph, obj)
         elif len(python_classes) == 1:
             return python_classes[0](graph, obj)
         else:
-            if types not in cls._meta_resource._classes:
+            combination = (types, python_classes)
+            if combination not in cls._meta_resource._classes:
                 the_class = cls._meta_resource.__new__(
                     cls._meta_resource,
                     "".join(python_class.__name__ for python_class in python_classes),
                     python_classes,
                     {"_autocreate": True},
                 )
-                cls._meta_resource._classes[types] = the_class
+                cls._meta_resource._classes[combination] = the_class
                 the_class.rdf_classes = frozenset(types)
-            return cls._meta_resource._classes[types](graph, obj)
+            return cls._meta_resource._classes[combination](graph, obj)
 
     def _interpret_key(self, key):
         """Break up a key into a predicate name and optional language or
-- 
2.43.0


From 42a7a5eccd2b0da5e8d19224145d8eba4abd5d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:07 +0000
Subject: [PATCH 48/59] fix: List iteration yields literals of any language

---
 src/pymantic/rdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index afe2a20..fdac454 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -576,7 +576,8 @@ class List(Resource):
         """Iterating over lists works differently from normal Resources."""
         current = self
         while current.subject != self.resolve("rdf:nil"):
-            yield current["rdf:first"]
+            first = current.objects(self.resolve("rdf:first"))
+            yield self.classify(self.graph, util.one_or_none(first))
             current = current["rdf:rest"]
             if current.subject != self.resolve("rdf:nil"):
                 current = current.as_(type(self))
-- 
2.43.0


From 6df232ed8befb33ba871eb7a7cad7fcc024d2919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:33 +0000
Subject: [PATCH 49/59] fix: the SKOS vocabulary declares its prefix and scalar
 under the names Resource reads

---
 src/pymantic/vocab/skos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/vocab/skos.py b/src/pymantic/vocab/skos.py
index 36c23a7..b34e2b4 100644
--- a/src/pymantic/vocab/skos.py
+++ b/src/pymantic/vocab/skos.py
@@ -5,9 +5,9 @@ NS_DICT = dict(skos=SKOS_NS)
 
 
 class SKOSResource(Resource):
-    namespaces = NS_DICT
+    prefixes = NS_DICT
 
-    scaler = ["skos:prefLabel"]
+    scalars = ["skos:prefLabel"]
 
 
 @register_class("skos:Concept")
-- 
2.43.0


From 694bc9190f8b37eaf385b46a998602b9ef8e8efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:46 +0000
Subject: [PATCH 50/59] fix: XML, RDF/XML and Turtle answers of a SPARQL store
 are read as the bytes they are

---
 src/pymantic/sparql.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 848625c..10e7562 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -1,7 +1,7 @@
 """Provide an interface to SPARQL query endpoints."""
 
 import datetime
-from io import StringIO
+from io import BytesIO
 import json
 import logging
 from lxml import objectify
@@ -145,7 +145,9 @@ class _Select(_SelectOrUpdate):
 
         if format:
             graph = rdflib.ConjunctiveGraph()
-            graph.parse(StringIO(response.content), self.query_url, format=format)
+            graph.parse(
+                BytesIO(response.content), self.server.query_url, format=format
+            )
             return graph
         elif response.headers["content-type"].startswith(
             "application/sparql-results+json"
@@ -154,7 +156,7 @@ class _Select(_SelectOrUpdate):
         elif response.headers["content-type"].startswith(
             "application/sparql-results+xml"
         ):
-            return objectify.parse(StringIO(response.content))
+            return objectify.parse(BytesIO(response.content))
         else:
             raise UnknownSPARQLReturnTypeException(
                 "Got content of type: %s" % response.headers["content-type"]
@@ -255,13 +257,13 @@ class UpdateableGraphStore(SPARQLServer):
             )
         graph = rdflib.ConjunctiveGraph()
         if response.headers["content-type"].startswith("text/plain"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="nt")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="nt")
         elif response.headers["content-type"].startswith("application/rdf+xml"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="xml")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="xml")
         elif response.headers["content-type"].startswith("text/turtle"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="turtle")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="turtle")
         elif response.headers["content-type"].startswith("text/rdf+n3"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="n3")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="n3")
         return graph
 
     def delete(self, graph_uri):
-- 
2.43.0


From eb15ef1cb6877bc8b040e19f392be9a90e07538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:50 +0000
Subject: [PATCH 51/59] fix: a query answered with 204 returns True instead of
 failing

---
 src/pymantic/sparql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 10e7562..909e0ca 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -137,6 +137,8 @@ class _Select(_SelectOrUpdate):
 
     def execute(self):
         response = super(_Select, self).execute()
+        if response is True:  # No content.
+            return response
         format = None
         if response.headers["content-type"].startswith("application/rdf+xml"):
             format = "xml"
-- 
2.43.0


From 83627a386b83cfdb968b7fcc0ad614d79704e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:52 +0000
Subject: [PATCH 52/59] fix: a query answer without content type is an unknown
 return type, and media types have no case

---
 src/pymantic/sparql.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 909e0ca..510a468 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -140,9 +140,10 @@ class _Select(_SelectOrUpdate):
         if response is True:  # No content.
             return response
         format = None
-        if response.headers["content-type"].startswith("application/rdf+xml"):
+        content_type = response.headers.get("content-type", "").lower()
+        if content_type.startswith("application/rdf+xml"):
             format = "xml"
-        elif response.headers["content-type"].startswith("text/turtle"):
+        elif content_type.startswith("text/turtle"):
             format = "turtle"
 
         if format:
@@ -151,17 +152,13 @@ class _Select(_SelectOrUpdate):
                 BytesIO(response.content), self.server.query_url, format=format
             )
             return graph
-        elif response.headers["content-type"].startswith(
-            "application/sparql-results+json"
-        ):
+        elif content_type.startswith("application/sparql-results+json"):
             return json.loads(response.content.decode("utf-8"))
-        elif response.headers["content-type"].startswith(
-            "application/sparql-results+xml"
-        ):
+        elif content_type.startswith("application/sparql-results+xml"):
             return objectify.parse(BytesIO(response.content))
         else:
             raise UnknownSPARQLReturnTypeException(
-                "Got content of type: %s" % response.headers["content-type"]
+                "Got content of type: %s" % response.headers.get("content-type")
             )
 
 
-- 
2.43.0


From 2b4b5138f9f3dbb218ad5574b8ee9db04a1f95fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:56 +0000
Subject: [PATCH 53/59] fix: graph store URLs are built with the functions
 Python 3 has, escaped as a path or added to a query

---
 src/pymantic/sparql.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 510a468..90371cf 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -8,8 +8,7 @@ from lxml import objectify
 import pytz
 import rdflib
 import requests
-import urllib
-from urllib.parse import urlparse
+from urllib.parse import quote, urlencode, urljoin
 
 log = logging.getLogger(__name__)
 
@@ -239,9 +238,10 @@ class UpdateableGraphStore(SPARQLServer):
 
     def request_url(self, graph_uri):
         if self.param_style:
-            return self.dataset_url + "?" + urllib.urlencode({"graph": graph_uri})
+            separator = "&" if "?" in self.dataset_url else "?"
+            return self.dataset_url + separator + urlencode({"graph": graph_uri})
         else:
-            return urlparse.urljoin(self.dataset_url, urllib.quote_plus(graph_uri))
+            return urljoin(self.dataset_url, quote(graph_uri, safe=""))
 
     def get(self, graph_uri):
         response = self.s.get(
-- 
2.43.0


From ac9ccdec13c04dc5ee9bdc0c8e1a3ccc92787fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:00 +0000
Subject: [PATCH 54/59] fix: graph store calls use the store's own request
 settings

---
 src/pymantic/sparql.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 90371cf..1b2430b 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -247,7 +247,7 @@ class UpdateableGraphStore(SPARQLServer):
         response = self.s.get(
             self.request_url(graph_uri),
             headers={"Accept": ",".join(self.acceptable_graph_responses)},
-            **self.server.requests_kwargs
+            **self.requests_kwargs
         )
         if response.status_code != 200:
             raise Exception(
@@ -267,7 +267,7 @@ class UpdateableGraphStore(SPARQLServer):
 
     def delete(self, graph_uri):
         response = self.s.delete(
-            self.request_url(graph_uri), **self.server.request_kwargs
+            self.request_url(graph_uri), **self.requests_kwargs
         )
         if response.status_code not in (200, 202):
             raise Exception(
@@ -281,7 +281,7 @@ class UpdateableGraphStore(SPARQLServer):
             self.request_url(graph_uri),
             data=graph_triples,
             headers={"content-type": "text/plain"},
-            **self.server.requests_kwargs
+            **self.requests_kwargs
         )
         if response.status_code not in (200, 201, 204):
             raise Exception(
@@ -296,7 +296,7 @@ class UpdateableGraphStore(SPARQLServer):
                 self.request_url(graph_uri),
                 data=graph_triples,
                 headers={"content-type": "text/plain"},
-                **self.server.requests_kwargs
+                **self.requests_kwargs
             )
             if response.status_code not in (200, 201, 204):
                 raise Exception(
@@ -308,7 +308,7 @@ class UpdateableGraphStore(SPARQLServer):
                 self.dataset_url,
                 data=graph_triples,
                 headers={"content-type": "text/plain"},
-                **self.server.requests_kwargs
+                **self.requests_kwargs
             )
             if response.status_code != 201:
                 raise Exception(
@@ -327,7 +327,7 @@ class PatchableGraphStore(UpdateableGraphStore):
             self.request_url(graph_uri),
             data=graph_xml,
             headers={"content-type": "application/vnd.talis.changeset+xml"},
-            **self.server.requests_kwargs
+            **self.requests_kwargs
         )
         if response.status_code not in (200, 201, 204):
             raise Exception(
-- 
2.43.0


From ee9a9761c1d532e5f1c4dc75c2204f4cd81d7de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:03 +0000
Subject: [PATCH 55/59] fix: a graph store answering DELETE with 204 has
 deleted the graph

---
 src/pymantic/sparql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 1b2430b..dcbfc2a 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -269,7 +269,7 @@ class UpdateableGraphStore(SPARQLServer):
         response = self.s.delete(
             self.request_url(graph_uri), **self.requests_kwargs
         )
-        if response.status_code not in (200, 202):
+        if response.status_code not in (200, 202, 204):
             raise Exception(
                 "Error from Graph Store (%s): %s"
                 % (response.status_code, response.content)
-- 
2.43.0


From 7c7cd8c68b07ae9deca153de4149c29e3c226042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:35 +0000
Subject: [PATCH 56/59] fix: a graph store answer in an unknown format is an
 error, not an empty graph

---
 src/pymantic/sparql.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index dcbfc2a..04bbda4 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -255,14 +255,19 @@ class UpdateableGraphStore(SPARQLServer):
                 % (response.status_code, response.content)
             )
         graph = rdflib.ConjunctiveGraph()
-        if response.headers["content-type"].startswith("text/plain"):
+        content_type = response.headers.get("content-type", "").lower()
+        if content_type.startswith("text/plain"):
             graph.parse(BytesIO(response.content), publicID=graph_uri, format="nt")
-        elif response.headers["content-type"].startswith("application/rdf+xml"):
+        elif content_type.startswith("application/rdf+xml"):
             graph.parse(BytesIO(response.content), publicID=graph_uri, format="xml")
-        elif response.headers["content-type"].startswith("text/turtle"):
+        elif content_type.startswith("text/turtle"):
             graph.parse(BytesIO(response.content), publicID=graph_uri, format="turtle")
-        elif response.headers["content-type"].startswith("text/rdf+n3"):
+        elif content_type.startswith("text/rdf+n3"):
             graph.parse(BytesIO(response.content), publicID=graph_uri, format="n3")
+        else:
+            raise UnknownSPARQLReturnTypeException(
+                "Got content of type: %s" % response.headers.get("content-type")
+            )
         return graph
 
     def delete(self, graph_uri):
-- 
2.43.0


From 4672dac5cdd8f7ea0ea1266ad484eb22328da052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:20 +0000
Subject: [PATCH 57/59] fix: normalizing an IRI keeps bytes that are not UTF-8
 encoded, and normalizes the case of every percent-encoding

---
 src/pymantic/util.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/pymantic/util.py b/src/pymantic/util.py
index 579ab30..d40d3e2 100644
--- a/src/pymantic/util.py
+++ b/src/pymantic/util.py
@@ -30,9 +30,7 @@ def one_or_none(values):
     return values[0]
 
 
-percent_encoding_re = re.compile(
-    r"(?:%(?![01][0-9a-fA-F])(?!20)[a-fA-F0-9][a-fA-F0-9])+"
-)
+percent_encoding_re = re.compile(r"(?:%[a-fA-F0-9][a-fA-F0-9])+")
 
 reserved_in_iri = [
     "%",
@@ -61,10 +59,15 @@ def percent_decode(regmatch):
     encoded = b""
     for group in regmatch.group(0)[1:].split("%"):
         encoded += int(group, 16).to_bytes(1, "big")
-    uni = encoded.decode("utf-8")
-    for res in reserved_in_iri:
-        uni = uni.replace(res, "%%%02X" % ord(res))
-    return uni
+    # Bytes that are not UTF-8 stay percent-encoded, like reserved characters,
+    # spaces and control characters.
+    uni = encoded.decode("utf-8", "surrogateescape")
+    return "".join(
+        percent_encode(char)
+        if char <= " " or char in reserved_in_iri or "\udc80" <= char <= "\udcff"
+        else char
+        for char in uni
+    )
 
 
 def normalize_iri(iri):
@@ -76,7 +79,7 @@ def normalize_iri(iri):
 
 
 def percent_encode(char):
-    return "".join("%%%02X" % char for char in char.encode("utf-8"))
+    return "".join("%%%02X" % char for char in char.encode("utf-8", "surrogateescape"))
 
 
 def quote_normalized_iri(normalized_iri):
-- 
2.43.0


From ce0e687f09fe73cb4ba3edd5366261ef2b816b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:39 +0000
Subject: [PATCH 58/59] fix: str() of a resource whose label is a reference is
 its subject, not an AttributeError

---
 src/pymantic/rdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index fdac454..807b344 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -386,8 +386,9 @@ class Resource(metaclass=MetaResource):
         return "<%r: %s>" % (type(self), self.subject)
 
     def __str__(self):
-        if self["rdfs:label"]:
-            return self["rdfs:label"].value
+        label = self["rdfs:label"]
+        if isinstance(label, Literal):
+            return label.value
         else:
             return str(self.subject)
 
-- 
2.43.0


From 8167601d38516e71764043a8b18d2505ce7e91c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:22 +0000
Subject: [PATCH 59/59] fix: a parse made while another is under way in the
 same thread leaves that one alone

---
 src/pymantic/parsers/base.py      | 8 ++++++--
 src/pymantic/parsers/jsonld.py    | 6 ++++--
 src/pymantic/parsers/lark/base.py | 8 ++++----
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pymantic/parsers/base.py b/src/pymantic/parsers/base.py
index 6c130fe..2224f87 100644
--- a/src/pymantic/parsers/base.py
+++ b/src/pymantic/parsers/base.py
@@ -42,12 +42,16 @@ class BaseParser:
         return self.env.createQuad(subject, predicate, object, graph)
 
     def _prepare_parse(self, graph):
+        # A stream or graph may parse something itself while it is being used.
+        outer = dict(self._call_state.__dict__)
+        self._call_state.outer = outer
         self._call_state.bnodes = defaultdict(self.env.createBlankNode)
         self._call_state.graph = graph
 
     def _cleanup_parse(self):
-        del self._call_state.bnodes
-        del self._call_state.graph
+        outer = self._call_state.outer
+        self._call_state.__dict__.clear()
+        self._call_state.__dict__.update(outer)
 
     def _make_graph(self):
         return self.env.createGraph()
diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index b2b4f48..9ba1568 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -28,8 +28,10 @@ class PyLDLoader(BaseParser):
         if sink is None:
             sink = self._make_graph()
         self._prepare_parse(sink)
-        self.process_jobj(jobj, options)
-        self._cleanup_parse()
+        try:
+            self.process_jobj(jobj, options)
+        finally:
+            self._cleanup_parse()
 
         return sink
 
diff --git a/src/pymantic/parsers/lark/base.py b/src/pymantic/parsers/lark/base.py
index f5f262f..afc8bd9 100644
--- a/src/pymantic/parsers/lark/base.py
+++ b/src/pymantic/parsers/lark/base.py
@@ -17,12 +17,12 @@ class LarkParser:
         """
         tf = self.lark.options.transformer
 
-        try:
-            if graph is None:
-                graph = tf._make_graph()
+        if graph is None:
+            graph = tf._make_graph()
 
-            tf._prepare_parse(graph)
+        tf._prepare_parse(graph)
 
+        try:
             if hasattr(string_or_stream, "readline"):
                 triples = self.line_by_line_parser(string_or_stream)
             else:
-- 
2.43.0

