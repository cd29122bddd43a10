From e03fac8ffab61e9e7976a4ebd14ee749372d56b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 01/70] fix: keep argument order and text position in
 Element.append/prepend/extend

Strings appended to an element with children went before them, prepended
nodes were reversed in an empty element, extend() consumed a generator before
moving its nodes, and a rejected argument left the earlier ones inserted.
---
 svgpy/dom.py | 76 +++++++++++++++++++---------------------------------
 1 file changed, 28 insertions(+), 48 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index c00e78e..5ffb6e3 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -77,17 +77,6 @@ def node_insert_before(parent, node, child=None):
     return node
 
 
-def node_prepend_data(node, data, tail=True):
-    if tail:
-        text = '' if node.tail is None else node.tail
-        text = data + text
-        node.tail = text
-    else:
-        text = '' if node.text is None else node.text
-        text = data + text
-        node.text = text
-
-
 class DOMStringMap(MutableMapping):
     """Represents the [HTML] DOMStringMap."""
 
@@ -1599,24 +1588,18 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Arguments:
             *nodes (Node, str, ...): A list of nodes to be added.
         """
-        data = ''
-        target = self
+        for node in nodes:
+            if not isinstance(node, str):
+                self.ensure_pre_insertion_validity(node)
         for node in nodes:
             if isinstance(node, str):
-                data += node
+                if len(self) > 0:
+                    node_append_data(self[-1], node)
+                else:
+                    node_append_data(self, node, tail=False)
                 continue
-            self.ensure_pre_insertion_validity(node)
-            if len(data) > 0:
-                tail = False if target == self else True
-                node_append_data(target, data, tail)
-                data = ''
-            node.attach_document(self.owner_document)
             super().append(node)
-            target = node
-
-        if len(data) > 0:
-            tail = False if target == self else True
-            node_append_data(target, data, tail)
+            node.attach_document(self.owner_document)
 
     def append_child(self, node):
         """Adds a sub-node to the end of this node.
@@ -1732,11 +1715,12 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 
         Extends the current children by the nodes in the iterable.
         """
-        owner_document = self.owner_document
+        nodes = list(nodes)
         for node in nodes:
             self.ensure_pre_insertion_validity(node)
-            node.attach_document(owner_document)
         super().extend(nodes)
+        for node in nodes:
+            node.attach_document(self.owner_document)
 
     def get_attribute(self, qualified_name):
         """Returns an attribute's value with the specified name.
@@ -2198,34 +2182,30 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Arguments:
             *nodes (Node, str, ...): A list of nodes to be added.
         """
-        first_child = self.first_child
-        data = ''
-        target = self
+        for node in nodes:
+            if not isinstance(node, str):
+                self.ensure_pre_insertion_validity(node)
         text = '' if self.text is None else self.text
         if len(text) > 0:
             self.text = ''
+        last_node = None
         for node in nodes:
             if isinstance(node, str):
-                data += node
-                continue
-            self.ensure_pre_insertion_validity(node)
-            if len(data) > 0:
-                tail = False if target == self else True
-                node_prepend_data(target, data, tail)
-                data = ''
-            node.attach_document(self.owner_document)
-            if first_child is None:
-                super().append(node)
-                first_child = node
+                if last_node is None:
+                    node_append_data(self, node, tail=False)
+                else:
+                    node_append_data(last_node, node)
+            elif last_node is None:
+                self.insert(0, node)
+                last_node = node
             else:
-                first_child.addprevious(node)
-            target = node
-
-        tail = False if target == self else True
-        if len(data) > 0:
-            node_prepend_data(target, data, tail)
+                last_node.addnext(node)
+                last_node = node
         if len(text) > 0:
-            node_append_data(target, text, tail)
+            if last_node is None:
+                node_append_data(self, text, tail=False)
+            else:
+                node_append_data(last_node, text)
 
     def query_selector_all(self, selectors):
         nsmap = self.nsmap.copy()
-- 
2.43.0


From 5defdef3a77d051b883607164bfc5ebdb686a99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 02/70] fix: change the owner document only after a node has
 been moved

---
 svgpy/dom.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 5ffb6e3..6b9673c 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1207,8 +1207,8 @@ class Comment(etree.CommentBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
         super().addnext(node)
+        node.attach_document(self.owner_document)
 
     def addprevious(self, node):
         """Reimplemented from lxml.etree.CommentBase.addprevious().
@@ -1222,8 +1222,8 @@ class Comment(etree.CommentBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
         super().addprevious(node)
+        node.attach_document(self.owner_document)
 
     def append(self, node):
         """Reimplemented from lxml.etree.CommentBase.append().
@@ -1564,8 +1564,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
         super().addnext(node)
+        node.attach_document(self.owner_document)
 
     def addprevious(self, node):
         """Reimplemented from lxml.etree.ElementBase.addprevious().
@@ -1579,8 +1579,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
         super().addprevious(node)
+        node.attach_document(self.owner_document)
 
     def append(self, *nodes):
         """Inserts sub-nodes after the last child node.
@@ -2133,8 +2133,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Inserts a sub-node at the given position in this node.
         """
         self.ensure_pre_insertion_validity(node)
-        node.attach_document(self.owner_document)
         super().insert(index, node)
+        node.attach_document(self.owner_document)
 
     def insert_before(self, node, child):
         """Inserts a node into a parent before a child.
@@ -2284,8 +2284,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         """
         self.ensure_pre_insertion_validity(new_node, old_node)
         self.ensure_pre_remove_validity(old_node)
-        new_node.attach_document(self.owner_document)
         super().replace(old_node, new_node)
+        new_node.attach_document(self.owner_document)
 
     def replace_child(self, node, child):
         """Replaces a child with node.
@@ -2500,8 +2500,8 @@ class ProcessingInstruction(etree.PIBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
         super().addnext(node)
+        node.attach_document(self.owner_document)
 
     def addprevious(self, node):
         """Reimplemented from lxml.etree.PIBase.addprevious().
@@ -2515,8 +2515,8 @@ class ProcessingInstruction(etree.PIBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
         super().addprevious(node)
+        node.attach_document(self.owner_document)
 
     def append(self, node):
         """Reimplemented from lxml.etree.PIBase.append().
-- 
2.43.0


From a7b9e2cdff0df8600aedfb7b76463ceab51bbea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 03/70] fix: reject the insertion of an ancestor with
 HierarchyRequestError

---
 svgpy/dom.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 6b9673c..40a1275 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -697,6 +697,12 @@ class Node(ABC):
                 "This node type '{}' cannot insert inside nodes of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
+        current = self
+        while current is not None:
+            if current is node:
+                raise HierarchyRequestError(
+                    'The new child node contains the parent node')
+            current = current.parent_node
         return True
 
     def ensure_pre_remove_validity(self, child):
-- 
2.43.0


From aab42705fcc98aa26cc168bd083f9b62fed35c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 04/70] fix: derive the root node from the tree that contains
 the node

A removed node reported the root element of its former document.
---
 svgpy/dom.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 40a1275..d5ef3cd 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -45,6 +45,24 @@ _RE_XML_NAME = re.compile(
     r"|-|\.|[0-9]|\xb7|[\u0300-\u036f]|[\u203f-\u2040])*$")
 
 
+def get_root_node(node):
+    """Returns the root element of the tree that contains a node, or the
+    topmost node if there is no such element.
+    """
+    while True:
+        parent = node.getparent()
+        if parent is None:
+            break
+        node = parent
+    if node.node_type == Node.ELEMENT_NODE:
+        return node
+    # a comment or a processing instruction outside of the root element
+    root = node.next_element_sibling
+    if root is None:
+        root = node.previous_element_sibling
+    return root if root is not None else node
+
+
 def node_append_data(node, data, tail=True):
     if tail:
         text = '' if node.tail is None else node.tail
@@ -1262,10 +1280,7 @@ class Comment(etree.CommentBase, CharacterData):
         Returns:
             Node: A root node.
         """
-        root = self.getroottree().getroot()
-        if root is None:
-            root = self
-        return root
+        return get_root_node(self)
 
     def insert(self, index, node):
         """Reimplemented from lxml.etree.CommentBase.insert().
@@ -2098,10 +2113,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Returns:
             Node: A root node.
         """
-        root = self.getroottree().getroot()
-        if root is None:
-            root = self
-        return root
+        return get_root_node(self)
 
     def has_attribute(self, qualified_name):
         """Returns True if an attribute with the specified name exists;
@@ -2555,10 +2567,7 @@ class ProcessingInstruction(etree.PIBase, CharacterData):
         Returns:
             Node: A root node.
         """
-        root = self.getroottree().getroot()
-        if root is None:
-            root = self
-        return root
+        return get_root_node(self)
 
     def insert(self, index, node):
         """Reimplemented from lxml.etree.PIBase.insert().
-- 
2.43.0


From bbc394682a9a67374b22717046007ad9b0ff972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 05/70] fix: let the root element decide the owner document of
 its tree

The answer depended on which proxies had been collected and was stale for
nodes next to the root element.
---
 svgpy/dom.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index d5ef3cd..323fbd0 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -623,15 +623,17 @@ class Node(ABC):
         """Document: An associated document."""
         if self.node_type == Node.DOCUMENT_NODE:
             return None
-        current = self
-        while True:
-            if current._owner_document is not None:
-                return current._owner_document
-            parent = current.parent_node  # type: Node
-            if parent is None:
-                break
-            current = parent
-        return None
+        owner_document = self._owner_document
+        if self.node_type != Node.ATTRIBUTE_NODE:
+            # the root element decides for the whole tree
+            root = self.get_root_node()
+            if root._owner_document is not None:
+                return root._owner_document
+            current = self
+            while owner_document is None and current is not None:
+                owner_document = current._owner_document
+                current = current.parent_node
+        return owner_document
 
     @property
     def parent_element(self):
-- 
2.43.0


From 7ba95a7bf9b6b5d800089943fd1baddb379fa1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 06/70] fix: forget a document element that was moved to
 another place

---
 svgpy/window.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 2354e84..b0d221a 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -88,7 +88,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         self._browsing_context = BrowsingContext(self, default_view)
         self._content_type = (content_type if content_type is not None
                               else 'application/xml')
-        self._document_element = None
+        self._root = None
         if document_element is not None:
             self.append(document_element)
         self._implementation = implementation
@@ -108,6 +108,20 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
     def __len__(self):
         return len(self.child_nodes)
 
+    @property
+    def _document_element(self):
+        root = self._root
+        if (root is not None
+                and (root.getparent() is not None
+                     or root.owner_document is not self)):
+            # the element has been moved to another place
+            self._root = root = None
+        return root
+
+    @_document_element.setter
+    def _document_element(self, root):
+        self._root = root
+
     @property
     def child_nodes(self):
         """list[Node]: The children of this node."""
-- 
2.43.0


From 2b9463bef0f713e5bd66570710c5b9f6d31fe0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 07/70] fix: keep the order of several nodes in
 Document.prepend

---
 svgpy/window.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index b0d221a..944d6fe 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -586,7 +586,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
             *nodes (Node, str, ...): A list of nodes to be added.
         """
         root = self._document_element
-        first_child = None
+        last_node = None
         for node in nodes:
             if isinstance(node, str):
                 raise HierarchyRequestError(
@@ -599,10 +599,11 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
                 root = node
             elif node == root:
                 continue  # do nothing
-            else:
-                if first_child is None:
-                    first_child = self.first_child
-                first_child.addprevious(node)
+            elif last_node is not None:
+                last_node.addnext(node)
+            elif node is not self.first_child:
+                self.first_child.addprevious(node)
+            last_node = node
 
     def query_selector_all(self, selectors):
         root = self._document_element
-- 
2.43.0


From ca618c6cf305436d4e433c1a53664949c1e4e342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 08/70] fix: serialise the document element rather than the
 libxml2 root

---
 svgpy/window.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 944d6fe..f292864 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -677,7 +677,8 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         root = self._document_element
         if root is None:
             return b''
-        return etree.tostring(root.getroottree(), **kwargs)
+        kwargs.setdefault('with_tail', False)
+        return etree.tostring(etree.ElementTree(root), **kwargs)
 
 
 class DOMImplementation(ABC):
-- 
2.43.0


From a96916daed3133c8672554860badcff9cb8d9566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 09/70] fix: treat every failure to fetch a style sheet as an
 empty style sheet

Only URLError was caught: a reset, a timeout or a short body while reading,
protocol errors and invalid URLs escaped from the style computation.
---
 svgpy/css/__init__.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index ecd44f2..39f8113 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -17,6 +17,7 @@ import re
 from abc import ABC, abstractmethod
 from collections import OrderedDict
 from collections.abc import MutableMapping, MutableSequence
+from http.client import HTTPException
 from logging import getLogger
 from urllib.error import URLError
 
@@ -1749,25 +1750,26 @@ class CSSParser(object):
         try:
             logger.debug('urlopen \'{}\''.format(url))
             data, headers = load(url)
-            if encoding is None:
-                content_type = get_content_type(headers)
-                if content_type is None:
-                    encoding = 'utf-8'
-                else:
-                    encoding = content_type.get('charset', 'utf-8')
-            rules, encoding = tinycss2.parse_stylesheet_bytes(
-                css_bytes=data,
-                protocol_encoding=encoding,
-                skip_comments=True,
-                skip_whitespace=True)
-            css_rules = CSSParser.parse_rules(
-                rules,
-                parent_style_sheet=css_style_sheet,
-                parent_rule=parent_rule)
-            css_style_sheet.css_rules.extend(css_rules)
-        except URLError as exp:
+        except (HTTPException, OSError, ValueError) as exp:
             logger.info(
-                'failed to parse: \'{}\': {}'.format(url, repr(exp)))
+                'failed to load: \'{}\': {}'.format(url, repr(exp)))
+            return css_style_sheet
+        if encoding is None:
+            content_type = get_content_type(headers)
+            if content_type is None:
+                encoding = 'utf-8'
+            else:
+                encoding = content_type.get('charset', 'utf-8')
+        rules, encoding = tinycss2.parse_stylesheet_bytes(
+            css_bytes=data,
+            protocol_encoding=encoding,
+            skip_comments=True,
+            skip_whitespace=True)
+        css_rules = CSSParser.parse_rules(
+            rules,
+            parent_style_sheet=css_style_sheet,
+            parent_rule=parent_rule)
+        css_style_sheet.css_rules.extend(css_rules)
         return css_style_sheet
 
     @staticmethod
-- 
2.43.0


From face6309fd70b8ba017359c65246c84dd4475f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 10/70] fix: resolve @import against its own style sheet and
 end cyclic imports

Imported style sheets carried the unresolved href of the link element, so that
nested imports were looked up in the wrong place, and a style sheet that
imports itself recursed until RecursionError.
---
 svgpy/css/__init__.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 39f8113..bd14569 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1147,10 +1147,21 @@ class CSSImportRule(CSSRule):
             }
         })
 
+    def _is_ancestor(self, url):
+        # a style sheet that imports itself, directly or indirectly
+        style_sheet = self.parent_style_sheet
+        while style_sheet is not None:
+            if style_sheet.location == url:
+                return True
+            owner_rule = style_sheet.owner_rule
+            style_sheet = (owner_rule.parent_style_sheet
+                           if owner_rule is not None else None)
+        return False
+
     def _parse_prelude(self, prelude):
         if self.parent_style_sheet is not None:
             owner_node = self.parent_style_sheet.owner_node
-            base_url = self.parent_style_sheet.href
+            base_url = self.parent_style_sheet.location
             if base_url is None and owner_node is not None:
                 doc = owner_node.owner_document
                 if doc is not None:
@@ -1168,7 +1179,7 @@ class CSSImportRule(CSSRule):
                 mediums.append(token)
         if len(mediums) > 0:
             self._media.media_text = tinycss2.serialize(mediums)
-        if self._href is None:
+        if self._href is None or self._is_ancestor(self._href):
             self._style_sheet = CSSStyleSheet(owner_node=owner_node,
                                               media=self._media.media_text,
                                               owner_rule=self)
@@ -1637,6 +1648,7 @@ class CSSStyleSheet(StyleSheet):
         super().__init__(**extra)
         self._owner_rule = owner_rule
         self._css_rules = list()
+        self._location = None
 
     def __repr__(self):
         return repr({
@@ -1648,6 +1660,11 @@ class CSSStyleSheet(StyleSheet):
             }
         })
 
+    @property
+    def location(self):
+        """str: The absolute URL the style sheet was loaded from or None."""
+        return self._location
+
     @property
     def owner_rule(self):
         """CSSRule: The owner CSS rule."""
@@ -1746,6 +1763,7 @@ class CSSParser(object):
                 'media': owner_node.get('media'),
             })
         css_style_sheet = CSSStyleSheet(owner_rule=parent_rule, **extra)
+        css_style_sheet._location = url
         logger = getLogger('{}.{}'.format(__name__, cls.__name__))
         try:
             logger.debug('urlopen \'{}\''.format(url))
-- 
2.43.0


From 7f8dc471a06a818134bd6c138d608e0eed789411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 11/70] fix: load style sheets and documents from data: URLs

load() returns decoded text for these, which tinycss2 and the document loader
rejected with TypeError and AttributeError.
---
 svgpy/css/__init__.py | 3 +++
 svgpy/utils.py        | 2 +-
 svgpy/window.py       | 4 +++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index bd14569..524dbbe 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1778,6 +1778,9 @@ class CSSParser(object):
                 encoding = 'utf-8'
             else:
                 encoding = content_type.get('charset', 'utf-8')
+        if isinstance(data, str):  # 'data:' URL
+            encoding = 'utf-8'
+            data = data.encode(encoding, 'replace')
         rules, encoding = tinycss2.parse_stylesheet_bytes(
             css_bytes=data,
             protocol_encoding=encoding,
diff --git a/svgpy/utils.py b/svgpy/utils.py
index a568c28..946a911 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -190,7 +190,7 @@ def load(src, encoding=None, **kwargs):
         pathname = url.pathname
         end = pathname.find(',')
         if end < 0:
-            return None, headers
+            raise ValueError('Invalid URL: ' + repr(url.href))
         content_type = pathname[0:end].strip()
         if len(content_type) == 0:
             content_type = 'text/plain;charset=US-ASCII'
diff --git a/svgpy/window.py b/svgpy/window.py
index f292864..7215529 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -856,7 +856,9 @@ class SVGDOMImplementation(DOMImplementation):
                 charset = 'utf-8'
             else:
                 charset = content_type.get('charset', 'utf-8')
-            data = StringIO(data.decode(charset))
+            if isinstance(data, bytes):
+                data = data.decode(charset)
+            data = StringIO(data)
         else:
             data = source
         tree = self._parser.parse(data)
-- 
2.43.0


From 58fbee0ef7e0e736a5ee8bec4458c867f749d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 12/70] fix: ignore style sheet links and imports without a
 valid URL

An empty href raised IndexError and an unparsable one ValueError from every
style computation in the document.
---
 svgpy/css/__init__.py |  5 ++++-
 svgpy/style.py        | 18 ++++++++++++++----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 524dbbe..346b4cf 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1173,7 +1173,10 @@ class CSSImportRule(CSSRule):
         for token in prelude:
             if self._href is None:
                 if token.type in ('string', 'url'):
-                    url = normalize_url(token.value, base_url)
+                    try:
+                        url = normalize_url(token.value, base_url)
+                    except ValueError:
+                        break  # invalid URL
                     self._href = url.href
             else:
                 mediums.append(token)
diff --git a/svgpy/style.py b/svgpy/style.py
index ff8998c..0f9ffad 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -174,7 +174,7 @@ def get_css_style_sheet_from_element(element, doc=None):
                 element, repr(rel_list), repr(as_)))
             return None  # TODO: support alternative style sheet.
         href = element.href
-        if href is None or href[0] == '#':
+        if not href or href[0] == '#':
             logger.debug('invalid URL: {} href={}'.format(
                 element, repr(href)))
             return None
@@ -188,7 +188,12 @@ def get_css_style_sheet_from_element(element, doc=None):
                 logger.debug('media not matched: {} media={}'.format(
                     element, repr(media)))
                 return None
-        url = normalize_url(href, base_url)
+        try:
+            url = normalize_url(href, base_url)
+        except ValueError as exp:
+            logger.debug('invalid URL: {} href={}: {}'.format(
+                element, repr(href), repr(exp)))
+            return None
         css_style_sheet = CSSParser.parse(url.href,
                                           owner_node=element)
         return css_style_sheet
@@ -252,7 +257,7 @@ def get_css_style_sheets_from_xml_stylesheet(root):
         elif element.target != 'xml-stylesheet':
             continue
         href = element.get('href')
-        if (href is None
+        if (not href
                 or href[0] == '#'
                 or element.get('alternate', '') == 'yes'):
             logger.debug('not a style sheet: {}'.format(element))
@@ -268,7 +273,12 @@ def get_css_style_sheets_from_xml_stylesheet(root):
                     repr(media)))
                 continue
         encoding = element.get('charset')
-        url = normalize_url(href, base_url)
+        try:
+            url = normalize_url(href, base_url)
+        except ValueError as exp:
+            logger.debug('invalid URL: {} href={}: {}'.format(
+                element, repr(href), repr(exp)))
+            continue
         css_style_sheet = CSSParser.parse(url.href,
                                           owner_node=element,
                                           encoding=encoding)
-- 
2.43.0


From e510722411f1a3cfdad531ae74c0202a2b660617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 13/70] fix: tolerate at-rules without a block or URL and
 string namespaces

A style sheet that was cut inside such a rule, or that declares a namespace
with a string, raised TypeError from every style computation.
---
 svgpy/css/__init__.py | 9 +++++++--
 svgpy/style.py        | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 346b4cf..27f54ce 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1047,7 +1047,7 @@ class CSSFontFeatureValuesRule(CSSRule):
                                          skip_comments=True,
                                          skip_whitespace=True)
         for node in nodes:
-            if node.type == 'at-rule':
+            if node.type == 'at-rule' and node.content is not None:
                 # tinycss2.parse_one_component_value() returns ParseError
                 feature_type = node.lower_at_keyword
                 name = None
@@ -1289,7 +1289,7 @@ class CSSNamespaceRule(CSSRule):
 
     def _parse_prelude(self, prelude):
         for token in prelude:
-            if token.type == 'url':
+            if token.type in ('string', 'url'):
                 self._namespace_uri = token.value
             elif token.type == 'ident':
                 self._prefix = token.value
@@ -1801,6 +1801,11 @@ class CSSParser(object):
         css_rules = list()
         for rule in rules:
             if rule.type == 'at-rule':
+                if (rule.content is None
+                        and rule.lower_at_keyword in ('font-face',
+                                                      'font-feature-values',
+                                                      'media')):
+                    continue  # invalid: no block
                 if rule.lower_at_keyword == 'font-face':
                     # @font-face at-rule
                     css_rule = CSSFontFaceRule(
diff --git a/svgpy/style.py b/svgpy/style.py
index 0f9ffad..b707234 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -319,7 +319,7 @@ def get_css_style(element, css_rules):
             # TODO: support CSS @font-feature-values at-rule.
             pass
         elif css_rule.type == CSSRule.NAMESPACE_RULE:
-            if len(css_rule.namespace_uri) > 0:
+            if css_rule.namespace_uri:
                 prefix = css_rule.prefix
                 if len(prefix) == 0:
                     prefix = 'svg'
-- 
2.43.0


From d664be9b95a2c68f08c318b31dbc5cec5dd29a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 14/70] fix: leave document and location unchanged when a
 navigation fails

The old root element was removed, and the location changed, before the new
document had been loaded and parsed.
---
 svgpy/url.py    | 37 ++++++++++++++++++-------------------
 svgpy/window.py |  8 +++++---
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index e4443bc..86e947c 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 
+import copy
 import os
 import re
 import sys
@@ -80,8 +81,7 @@ class Location(object):
 
     @hash.setter
     def hash(self, fragment):
-        self._url.hash = fragment
-        self._navigate()
+        self._update('hash', fragment)
 
     @property
     def host(self):
@@ -93,8 +93,7 @@ class Location(object):
 
     @host.setter
     def host(self, host):
-        self._url.host = host
-        self._navigate()
+        self._update('host', host)
 
     @property
     def hostname(self):
@@ -105,8 +104,7 @@ class Location(object):
 
     @hostname.setter
     def hostname(self, hostname):
-        self._url.hostname = hostname
-        self._navigate()
+        self._update('hostname', hostname)
 
     @property
     def href(self):
@@ -117,8 +115,7 @@ class Location(object):
 
     @href.setter
     def href(self, url):
-        self._url.href = url
-        self._navigate()
+        self._update('href', url)
 
     @property
     def origin(self):
@@ -134,8 +131,7 @@ class Location(object):
 
     @pathname.setter
     def pathname(self, pathname):
-        self._url.pathname = pathname
-        self._navigate()
+        self._update('pathname', pathname)
 
     @property
     def port(self):
@@ -146,8 +142,7 @@ class Location(object):
 
     @port.setter
     def port(self, port):
-        self._url.port = port
-        self._navigate()
+        self._update('port', port)
 
     @property
     def protocol(self):
@@ -158,8 +153,7 @@ class Location(object):
 
     @protocol.setter
     def protocol(self, protocol):
-        self._url.protocol = protocol
-        self._navigate()
+        self._update('protocol', protocol)
 
     @property
     def search(self):
@@ -170,12 +164,17 @@ class Location(object):
 
     @search.setter
     def search(self, search):
-        self._url.search = search
-        self._navigate()
+        self._update('search', search)
 
-    def _navigate(self):
+    def _update(self, name, value):
+        # the location changes only if the navigation succeeds
+        url = copy.deepcopy(self._url)
+        setattr(url, name, value)
+        self._navigate(url)
+        self._url = url
+
+    def _navigate(self, url):
         if self._browsing_context is not None:
-            url = self._url
             if ((len(url.protocol) == 0 and len(url.host) == 0)
                     or url.protocol in ['blob:', 'data:']
                     or (url.protocol in ['about:', 'file:']
@@ -193,7 +192,7 @@ class Location(object):
 
     def reload(self):
         """Reloads the current page."""
-        self._navigate()
+        self._navigate(self._url)
 
     def tostring(self, exclude_fragment=False):
         """Serializes a Location object.
diff --git a/svgpy/window.py b/svgpy/window.py
index 7215529..6204359 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -571,12 +571,14 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         resource = url.href
         logger = getLogger('{}.{}'.format(__name__, self.__class__.__name__))
         logger.debug('navigate to \'{}\''.format(resource))
+        new_root = None
+        if url.protocol != 'about:':
+            new_root = self._implementation.parse(resource)
         root = self._document_element
         if root is not None:
             self.remove(root)
-        if url.protocol != 'about:':
-            root = self._implementation.parse(resource)
-            self.append(root)
+        if new_root is not None:
+            self.append(new_root)
         return self
 
     def prepend(self, *nodes):
-- 
2.43.0


From 16295d83e37441d4cad105430f721e3ee73adf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 15/70] fix: take style sheets from the tree that contains the
 element

A removed element was still styled by the document it came from.
---
 svgpy/style.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index b707234..8e5d337 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -138,7 +138,7 @@ def get_css_style_sheets(element):
     css_style_sheet.insert_rule(_SVG_UA_CSS_STYLESHEET)
     style_sheets.append(css_style_sheet)
 
-    root = element.getroottree().getroot()
+    root = element.get_root_node()
 
     # xml-stylesheet
     style_sheets.extend(get_css_style_sheets_from_xml_stylesheet(root))
-- 
2.43.0


From 2140e8b9a5bcab71ccb1803a9bfef88cbc772bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 16/70] fix: parse style attribute values with colons, quotes
 and !important

---
 svgpy/dom.py   | 10 +++++--
 svgpy/utils.py | 71 +++++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 72 insertions(+), 9 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 323fbd0..c96dcaf 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -27,7 +27,7 @@ from .style import get_css_rules, get_css_style, \
     get_css_style_sheet_from_element
 from .utils import QualifiedName, get_elements_by_class_name, \
     get_elements_by_tag_name, get_elements_by_tag_name_ns, \
-    is_ascii_whitespace, style_to_dict
+    is_ascii_whitespace, split_priority, style_to_dict
 
 
 _RE_DOM_STRING_MAP_INVALID_SYNTAX = re.compile(r'-[a-z]')
@@ -2005,9 +2005,15 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             css_style, css_style_important = get_css_style(element, css_rules)
             css_style.update(element.attrib)
             _style = css_style.pop('style', None)
+            style_attr_important = dict()
             if _style is not None:
-                css_style.update(style_to_dict(_style))
+                for key, value in style_to_dict(_style).items():
+                    value, priority = split_priority(value)
+                    css_style[key] = value
+                    if priority == 'important':
+                        style_attr_important[key] = value
             css_style.update(css_style_important)
+            css_style.update(style_attr_important)
             for key in iter(list(inherited_props.keys())):
                 value = css_style.get(key)
                 if value is not None and value not in ['inherit']:
diff --git a/svgpy/utils.py b/svgpy/utils.py
index 946a911..7e1a2d5 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -27,6 +27,19 @@ from .url import Location, URL
 
 _ASCII_WHITESPACE = '\t\n\f\r\x20'
 
+_BLOCKS = {
+    '(': ')',
+    '[': ']',
+    '{': '}',
+}
+
+_RE_DECLARATION_TOKEN = re.compile(
+    r'"(?:[^"\\]|\\.)*"?|\'(?:[^\'\\]|\\.)*\'?|/\*.*?(?:\*/|$)'
+    r'|url\(\s*[^"\'\s)](?:[^)\\]|\\.)*\)?|\\.|[;()\[\]{}]',
+    re.DOTALL | re.IGNORECASE)
+
+_RE_PRIORITY = re.compile(r'!\s*important\s*$', re.IGNORECASE)
+
 _RE_QUALIFIED_NAME = re.compile(
     r'{(?P<namespace>[^}]*)}(?P<local_name>.*)')
 
@@ -238,21 +251,65 @@ def remove_quotes(src):
     return src
 
 
+def split_priority(value):
+    """Splits a value of the style attribute into the CSS value and the
+    important flag.
+
+    Arguments:
+        value (str): A value of the CSS declaration.
+    Returns:
+        tuple[str, str]: The CSS value, and 'important' or ''.
+    """
+    matched = _RE_PRIORITY.search(value)
+    if matched is None:
+        return value, ''
+    return value[:matched.start()].rstrip(), 'important'
+
+
 def style_to_dict(text):
     """Converts the style attribute's value to a dictionary.
 
     Arguments:
         text (str): The style attributes's value to be converted.
     Returns:
-        OrderedDict: A dictionary.
+        OrderedDict: A dictionary. The important flag is left in the value.
     """
+    style = OrderedDict()
     if text is None or len(text.strip()) == 0:
-        return OrderedDict()
-    items = [x.split(':') for x in iter(text.strip().split(';'))]
-    items = [x for x in items if len(x) == 2]
-    return OrderedDict(
-        (key.strip(), value.strip()) for key, value in iter(items)
-    )
+        return style
+    items = [x.partition(':') for x in _split_declarations(text)]
+    for key, colon, value in items:
+        key = key.strip()
+        value = value.strip()
+        if len(colon) == 0 or len(key) == 0:
+            continue
+        if not key.startswith('--'):
+            key = key.lower()
+        if (key in style
+                and split_priority(style[key])[1] == 'important'
+                and split_priority(value)[1] != 'important'):
+            continue
+        style[key] = value
+    return style
+
+
+def _split_declarations(text):
+    # ';' does not end a declaration inside of a string or a block
+    declarations = list()
+    start = 0
+    closing = list()
+    for it in _RE_DECLARATION_TOKEN.finditer(text):
+        token = it.group()
+        if token in _BLOCKS:
+            closing.append(_BLOCKS[token])
+        elif len(closing) > 0:
+            if token == closing[-1]:
+                closing.pop()
+        elif token == ';':
+            declarations.append(text[start:it.start()])
+            start = it.end()
+    declarations.append(text[start:])
+    return declarations
 
 
 class CaseInsensitiveMapping(MutableMapping):
-- 
2.43.0


From 18b743b74c4725ba36ea354c8a6d39c260131851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 17/70] fix: reread the inline declarations when the style
 attribute changes

---
 svgpy/css/__init__.py | 64 +++++++++++++++----------------------------
 1 file changed, 22 insertions(+), 42 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 27f54ce..05db5a3 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -36,7 +36,7 @@ from .types import CSSKeywordValue, CSSImageValue, CSSMathClamp, \
     StylePropertyMap, StylePropertyMapReadOnly, UnitType
 from ..exception import NoModificationAllowedError
 from ..utils import CaseInsensitiveMapping, dict_to_style, get_content_type, \
-    load, normalize_url, style_to_dict
+    load, normalize_url, split_priority, style_to_dict
 
 _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}')
 
@@ -1322,8 +1322,9 @@ class CSSStyleDeclaration(MutableMapping):
         self._parent_rule = parent_rule
         self._css_text = None
         self._property_map = OrderedDict()
+        self._last_style = ''
         self._owner_node = owner_node
-        self._inline_style = inline_style
+        self._inline_style = inline_style and owner_node is not None
         self._readonly = False
         if rule is not None:
             self._css_text = normalize_text(tinycss2.serialize(rule.content))
@@ -1385,51 +1386,22 @@ class CSSStyleDeclaration(MutableMapping):
     def _declarations(self):
         if self._readonly:
             return self._property_map.copy()
-        elif self._owner_node is None or not self._inline_style:
+        elif not self._inline_style:
             return self._property_map
 
         # 'style' attribute => CSS declarations
-        attr = self._owner_node.attributes.get_named_item_ns(None, 'style')
-        style = '' if attr is None else attr.value
-        property_map = style_to_dict(style)
-        declarations = self._property_map
-        for property_name in declarations:
-            if Longhand.is_longhand(property_name):
-                shorthand_names = Longhand.shorthands(property_name)
-                for shorthand_name in shorthand_names:
-                    if shorthand_name in property_map:
-                        shorthand = Shorthand(declarations)
-                        result = shorthand.get_property_value(shorthand_name)
-                        if result == property_map[shorthand_name]:
-                            del property_map[shorthand_name]
-                            break
-            elif (property_name in property_map
-                  and declarations[property_name][0]
-                  == property_map[property_name]):
-                del property_map[property_name]
-
-        for property_name, value in property_map.items():
-            needs_update = False
-            priority = ''
-            if Shorthand.is_shorthand(property_name):
-                shorthand = Shorthand(declarations)
-                result = shorthand.get_property_value(property_name)
-                if result != value:
-                    needs_update = True
-                    priority = shorthand.get_property_priority(property_name)
-            else:
-                if property_name not in declarations:
-                    needs_update = True
-                elif value != declarations[property_name][0]:
-                    needs_update = True
-                    priority = declarations[property_name][1]
-            if needs_update:
+        style = self._style_attribute()
+        if style != self._last_style:
+            declarations = OrderedDict()
+            for property_name, value in style_to_dict(style).items():
+                value, priority = split_priority(value)
                 self._set_property_internal(declarations,
                                             property_name,
                                             value,
                                             priority)
-
-        return declarations
+            self._property_map = declarations
+            self._last_style = style
+        return self._property_map
 
     def _parse_content(self, content):
         nodes = tinycss2.parse_declaration_list(content,
@@ -1479,11 +1451,15 @@ class CSSStyleDeclaration(MutableMapping):
                 result = declarations[property_name][0]
         return updated, result
 
+    def _style_attribute(self):
+        attr = self._owner_node.attributes.get_named_item_ns(None, 'style')
+        return '' if attr is None else attr.value
+
     def _update_style_attribute(self, declarations, property_name, value):
-        if self._owner_node is None:
-            return
         style = _StyleAttribute(declarations, self._owner_node)
         style.update(property_name, value)
+        self._property_map = declarations
+        self._last_style = self._style_attribute()
 
     def get_property_priority(self, property_name):
         """Returns the important flag of the first exact match of name in the
@@ -1551,6 +1527,8 @@ class CSSStyleDeclaration(MutableMapping):
         value = self.get_property_value(property_name)
         removed = False
         declarations = self._declarations()
+        if self._inline_style:
+            declarations = declarations.copy()
         if Shorthand.is_shorthand(property_name):
             shorthand = Shorthand(declarations)
             removed = shorthand.remove_property(property_name)
@@ -1587,6 +1565,8 @@ class CSSStyleDeclaration(MutableMapping):
         if priority not in ('', 'important'):
             return
         declarations = self._declarations()
+        if self._inline_style:
+            declarations = declarations.copy()
         updated, result = self._set_property_internal(declarations,
                                                       property_name,
                                                       value,
-- 
2.43.0


From ff17ecef1cd98339ebdfcc7d82165e2d914d28fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 18/70] fix: evaluate ratio media features and malformed media
 queries without raising

---
 svgpy/css/mediaquery.py | 66 +++++++++++++++++++++++++++++++++--------
 svgpy/window.py         | 10 +++----
 2 files changed, 59 insertions(+), 17 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index 0ca8242..271f1be 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -30,6 +30,8 @@ DISCRETE_FEATURES = [
     'any-hover',
 ]
 
+RATIO_FEATURES = ['aspect-ratio', 'device-aspect-ratio']
+
 # See https://drafts.csswg.org/mediaqueries-4/#mq-syntax
 _RE_MEDIA_QUERY = re.compile(
     r"(?P<media_not>not\s+\(.+\))"
@@ -88,11 +90,30 @@ def parse(query):
         if len(media_query) == 0:
             continue
         node = dict()
-        _parse_media_query(media_query, node)
+        try:
+            _parse_media_query(media_query, node)
+        except ValueError as exp:
+            logger.debug('invalid media query: ' + repr(exp))
+            node = None
+        if not _is_valid(node):
+            # a malformed media query must be treated as 'not all'
+            node = _parse_media_query('not all', dict())
         node_list.append(node)
     return node_list
 
 
+def _is_valid(node):
+    if not node:
+        return False
+    expr = node.get(MQ_EXPR)
+    if expr == MQ_EXPR_UNARY_OP:
+        return _is_valid(node[MQ_OPERAND])
+    elif expr == MQ_EXPR_BOOL_OP:
+        children = node.get(MQ_VALUES, [])
+        return len(children) > 0 and all(_is_valid(x) for x in children)
+    return expr is not None
+
+
 def dump(node_list, **kwargs):
     pprint.pprint(node_list, **kwargs)
 
@@ -205,20 +226,24 @@ def _eval_expr_compare(node, conditions, compare_func, user_data=None):
             if not result:
                 return False, None
         elif ((left_expr == MQ_EXPR_NAME or right_expr == MQ_EXPR_NAME)
-              and name == 'aspect-ratio'):
+              and name in RATIO_FEATURES):
             # value: <ratio>
             # e.g.: '(aspect-ratio: 16/9)' -> '(aspect-ratio == 16/9)'
-            left_ratio = Fraction(left_value)
-            right_ratio = Fraction(right_value)
-            if op[-1] == '=' and left_ratio == right_ratio:
-                logger.debug('feature \'{}\': {} {} {}: result={}'.format(
-                    name, repr(left_ratio), op, repr(right_ratio), True))
+            try:
+                left_ratio = _parse_ratio(left_value)
+                right_ratio = _parse_ratio(right_value)
+            except ValueError as exp:
+                logger.debug('feature \'{}\': {} {} {}: exception={}'.format(
+                    name, repr(left_value), op, repr(right_value), repr(exp)))
+                return False, None
+            logger.debug('feature \'{}\': {} {} {}'.format(
+                name, repr(left_ratio), op, repr(right_ratio)))
+            if ((op[-1] == '=' and left_ratio == right_ratio)
+                    or (op[0] == '>' and left_ratio > right_ratio)
+                    or (op[0] == '<' and left_ratio < right_ratio)):
+                pass  # ok
             else:
-                cmp = left_ratio > right_ratio
-                logger.debug('feature \'{}\': {} {} {}: result={}'.format(
-                    name, repr(left_ratio), op, repr(right_ratio), cmp))
-                if (op[0] == '>' and not cmp) or (op[0] == '<' and cmp):
-                    return False, None
+                return False, None
         else:
             # value: <length> | <resolution> | <mq-boolean> | <integer>
             # e.g.: '(1 < color-index < 255)' ->
@@ -270,6 +295,17 @@ def _eval_expr_name(node, conditions):
     return result, matched_media
 
 
+def _parse_ratio(value):
+    # <ratio> = <number> [ / <number> ]?
+    numerator, _, denominator = value.partition('/')
+    numerator = Fraction(numerator)
+    denominator = Fraction(denominator) if denominator else Fraction(1)
+    if denominator != 0:
+        return numerator / denominator
+    # a degenerate ratio
+    return float('inf') if numerator > 0 else float('nan')
+
+
 def _parse_media_query(query, parent):
     for it in _RE_MEDIA_QUERY.finditer(query):
         # <media-not>
@@ -322,6 +358,9 @@ def _parse_media_query(query, parent):
                     else:
                         # <media-condition-without-or>
                         remain = media_query[start:]
+                        if remain == query:
+                            raise ValueError('Invalid media query: '
+                                             + repr(query))
                         _parse_media_query(remain, parent)
                         break
                 start = end
@@ -329,6 +368,9 @@ def _parse_media_query(query, parent):
                 remain = media_query[start:]
                 if media_query[start] == '(':
                     # <media-query>
+                    if remain == query:
+                        raise ValueError('Invalid media query: '
+                                         + repr(query))
                     _parse_media_query(remain, parent)
                 else:
                     # <media-type>
diff --git a/svgpy/window.py b/svgpy/window.py
index 6204359..e4bca0a 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -15,7 +15,6 @@
 
 from abc import ABC, abstractmethod
 from collections.abc import Collection
-from fractions import Fraction
 from io import StringIO
 from logging import getLogger
 
@@ -742,14 +741,15 @@ class MediaQueryList(object):
         else:
             width = win.inner_width
             height = win.inner_height
-        aspect_ratio = Fraction(int(width), int(height))
+        aspect_ratio = '{}/{}'.format(int(width), int(height))
         screen = win.screen
-        device_aspect_ratio = Fraction(int(screen.width), int(screen.height))
+        device_aspect_ratio = '{}/{}'.format(int(screen.width),
+                                             int(screen.height))
         conditions = {
             'media': screen.media,
             'width': '{}px'.format(width),
             'height': '{}px'.format(height),
-            'aspect-ratio': '{}'.format(aspect_ratio),
+            'aspect-ratio': aspect_ratio,
             'orientation': screen.orientation.type,
             'resolution': '{}dppx'.format(win.device_pixel_ratio),
             'scan': screen.scan,
@@ -764,7 +764,7 @@ class MediaQueryList(object):
             # deprecated media features
             'device-width': '{}px'.format(screen.width),
             'device-height': '{}px'.format(screen.height),
-            'device-aspect-ratio': '{}'.format(device_aspect_ratio),
+            'device-aspect-ratio': device_aspect_ratio,
         }
         matches, _ = mq.match(self._tree, conditions, _mql_compare,
                               user_data=context)
-- 
2.43.0


From ee24a4302401dc8dd379594e4ee3aa4207aacd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 19/70] fix: ignore rules whose selector cannot be evaluated

---
 svgpy/style.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/svgpy/style.py b/svgpy/style.py
index 8e5d337..7ae8e64 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -312,6 +312,11 @@ def get_css_style(element, css_rules):
                 logger.info('SelectorSyntaxError: {}: \'{}\''.format(
                     exp,
                     css_rule.selector_text))
+            except (etree.XPathError, ValueError) as exp:
+                # e.g.: an undeclared namespace prefix
+                logger.info('{}: \'{}\''.format(
+                    repr(exp),
+                    css_rule.selector_text))
         elif css_rule.type == CSSRule.FONT_FACE_RULE:
             # TODO: support CSS @font-face at-rule.
             pass
-- 
2.43.0


From 81967a7002ef0dc070c9baca3df3f5739c32c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 20/70] fix: load documents that carry an encoding declaration

---
 svgpy/window.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index e4bca0a..3a8f127 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 
+import re
 from abc import ABC, abstractmethod
 from collections.abc import Collection
 from io import StringIO
@@ -32,6 +33,8 @@ from .utils import get_content_type, get_element_by_id, \
     get_elements_by_class_name, get_elements_by_tag_name, \
     get_elements_by_tag_name_ns, load, normalize_url
 
+_RE_XML_DECLARATION = re.compile(r'^\ufeff?(<\?xml\s[^>]*\?>)?')
+
 
 class BrowsingContext(object):
     """A browsing context object that is associated with the document."""
@@ -860,7 +863,8 @@ class SVGDOMImplementation(DOMImplementation):
                 charset = content_type.get('charset', 'utf-8')
             if isinstance(data, bytes):
                 data = data.decode(charset)
-            data = StringIO(data)
+            # the text is decoded: ignore the encoding declaration
+            data = StringIO(_RE_XML_DECLARATION.sub('', data))
         else:
             data = source
         tree = self._parser.parse(data)
-- 
2.43.0


From 919b0c2125017464949bc6f1bc8fdb1cceeb6cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:12 +0000
Subject: [PATCH 21/70] fix: match selectors with combinators against the whole
 tree

---
 svgpy/style.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index 7ae8e64..ad224d2 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -289,6 +289,7 @@ def get_css_style_sheets_from_xml_stylesheet(root):
 def get_css_style(element, css_rules):
     style = dict()
     style_important = dict()
+    root = element.get_root_node()
     namespaces = element.nsmap.copy()
     uri = namespaces.pop(None, None)
     if uri is not None:
@@ -298,7 +299,8 @@ def get_css_style(element, css_rules):
             try:
                 selector = cssselect.CSSSelector(css_rule.selector_text,
                                                  namespaces=namespaces)
-                matched = selector(element)
+                # the whole tree: combinators refer to nodes around the element
+                matched = selector(root)
                 if len(matched) > 0 and element in matched:
                     for key, (value, priority) in css_rule.style.items():
                         style[key] = value
-- 
2.43.0


From 237a437ab033e2c8542473bc7f7e76d6eb3fe28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:01 +0000
Subject: [PATCH 22/70] fix: resolve font-family beside the font shorthand on
 one element

---
 svgpy/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index c96dcaf..a006fc6 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2024,7 +2024,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                     elif key == 'font-family':
                         # 'font-family' property
                         style[key] = CSSUtils.parse_font_family(value)
-                        del inherited_props[key]
+                        inherited_props.pop(key, None)
                     elif key == 'font-variant':
                         # 'font-variant' shorthand property
                         style[key] = value
-- 
2.43.0


From bc9926b621c713cc2378610e72a04496ffdc66e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 23/70] fix: apply the marker shorthand instead of raising
 NotImplementedError

---
 svgpy/dom.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index a006fc6..c1e0cc7 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2031,8 +2031,15 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                         _update_font_variant_prop(value, style,
                                                   inherited_props)
                     elif key == 'marker':
-                        # TODO: parse the 'marker' shorthand property.
-                        raise NotImplementedError
+                        # 'marker' shorthand property
+                        style[key] = value
+                        for _key in ('marker-start',
+                                     'marker-mid',
+                                     'marker-end'):
+                            if _key in inherited_props:
+                                style[_key] = value
+                                del inherited_props[_key]
+                        inherited_props.pop(key, None)
                     else:
                         if key in ['font-variant-alternates',
                                    'font-variant-east-asian',
-- 
2.43.0


From e4a8027b2482fb9c243514b42f8337a144115f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:17 +0000
Subject: [PATCH 24/70] fix: honour the encoding declaration when no charset is
 given

---
 svgpy/window.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 3a8f127..5b5ef79 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -16,7 +16,7 @@
 import re
 from abc import ABC, abstractmethod
 from collections.abc import Collection
-from io import StringIO
+from io import BytesIO, StringIO
 from logging import getLogger
 
 from lxml import etree
@@ -857,14 +857,17 @@ class SVGDOMImplementation(DOMImplementation):
         if isinstance(source, str):
             data, headers = load(source)
             content_type = get_content_type(headers)
-            if content_type is None:
-                charset = 'utf-8'
-            else:
-                charset = content_type.get('charset', 'utf-8')
+            charset = None
+            if content_type is not None:
+                charset = content_type.get('charset')
             if isinstance(data, bytes):
-                data = data.decode(charset)
-            # the text is decoded: ignore the encoding declaration
-            data = StringIO(_RE_XML_DECLARATION.sub('', data))
+                if charset is None:
+                    data = BytesIO(data)  # let the parser find the encoding
+                else:
+                    data = data.decode(charset)
+            if isinstance(data, str):
+                # the text is decoded: ignore the encoding declaration
+                data = StringIO(_RE_XML_DECLARATION.sub('', data))
         else:
             data = source
         tree = self._parser.parse(data)
-- 
2.43.0


From 172f4f3d5ea3458831dec08d2ba93a2359117fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 25/70] fix: accept a quoted charset parameter

---
 svgpy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index 7e1a2d5..0b785b6 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -78,7 +78,7 @@ def get_content_type(headers):
     for parameter in parameters:
         items = parameter.split('=')
         if len(items) == 2:
-            result[items[0]] = items[1]
+            result[items[0].strip()] = remove_quotes(items[1].strip())
     return result
 
 
-- 
2.43.0


From ba788951d705a1c56a1142d775173b4aa4cfab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 26/70] fix: keep @namespace rules inside their style sheet

---
 svgpy/style.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index ad224d2..0a68825 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -290,11 +290,16 @@ def get_css_style(element, css_rules):
     style = dict()
     style_important = dict()
     root = element.get_root_node()
-    namespaces = element.nsmap.copy()
-    uri = namespaces.pop(None, None)
-    if uri is not None:
-        namespaces['svg'] = uri
+    nsmap = element.nsmap.copy()
+    nsmap.pop(None, None)
+    # declared by the user agent style sheet
+    nsmap['svg'] = 'http://www.w3.org/2000/svg'
+    nsmap['xml'] = 'http://www.w3.org/XML/1998/namespace'
+    # @namespace rules apply only to their own style sheet
+    scopes = dict()
     for css_rule in css_rules:
+        namespaces = scopes.setdefault(id(css_rule.parent_style_sheet),
+                                       nsmap.copy())
         if css_rule.type == CSSRule.STYLE_RULE:
             try:
                 selector = cssselect.CSSSelector(css_rule.selector_text,
-- 
2.43.0


From ccda4030ea723da115bf268996e253f99bc473a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 27/70] fix: resolve references with a query, fragment or host
 and keep the base URL

---
 svgpy/url.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 86e947c..f0b2ae8 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -239,6 +239,8 @@ class URL(object):
         if (parsed_base is not None
                 and parsed_base.protocol in ['about:', 'blob:', 'data:']):
             parsed_base = None
+        if parsed_base is not None and url.startswith('//'):
+            url = parsed_base.protocol + url
         done = False
         try:
             self._parse_url(url)
@@ -247,29 +249,28 @@ class URL(object):
             if parsed_base is None:
                 raise
         if not done:
-            if os.path.isabs(url):
-                parsed_base.pathname = url
-                parsed_base.search = ''
-                parsed_base.hash = ''
-            else:
+            pr = urlsplit(url)
+            pathname = pr.path
+            search = pr.query
+            if len(pathname) == 0:
+                pathname = parsed_base.pathname
+                if len(search) == 0:
+                    search = parsed_base.search
+            elif not os.path.isabs(pathname):
+                parent_path = parsed_base.pathname
                 if parsed_base.protocol != 'file:':
-                    pathname = os.path.join(
-                        os.path.dirname(parsed_base.pathname),
-                        url)
+                    parent_path = os.path.dirname(parent_path)
                 else:  # 'file:'
-                    parent_path = parsed_base.pathname
                     if sys.platform.startswith('win'):
                         parent_path = parent_path.lstrip('/')
                     if not os.path.isdir(parent_path):
                         parent_path = os.path.dirname(parent_path)
-                    pathname = os.path.join(parent_path, url)
-                pathname = pathname.replace('\\', '/')
-                pr = urlsplit(pathname)
-                parsed_base.pathname = pr.path
-                parsed_base.search = pr.query
-                parsed_base.hash = pr.fragment
-            url = parsed_base.href
-            self._parse_url(url)
+                pathname = os.path.join(parent_path, pathname)
+            resolved = copy.deepcopy(parsed_base)
+            resolved.pathname = pathname.replace('\\', '/')
+            resolved.search = search
+            resolved.hash = pr.fragment
+            self._parse_url(resolved.href)
 
     def __repr__(self):
         return repr({'href': self.tostring(),
-- 
2.43.0


From 361c537406034aff5d9b675ad1d1e73982df0f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 28/70] fix: leave the URL unchanged when an assignment is
 rejected

---
 svgpy/url.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index f0b2ae8..01b8592 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -489,6 +489,11 @@ class URL(object):
         self._username = quote(unquote(username), safe='')
 
     def _parse_host(self, host, hostname_state=False):
+        # an invalid host changes nothing
+        copy.copy(self)._set_host(host, hostname_state)
+        self._set_host(host, hostname_state)
+
+    def _set_host(self, host, hostname_state):
         if len(host) == 0:
             self._host = self._hostname = ''
             if not hostname_state:
@@ -535,10 +540,16 @@ class URL(object):
                     self.port = port
 
     def _parse_url(self, url):
+        # an invalid URL changes nothing
+        copy.deepcopy(self)._set_url(url)
+        self._set_url(url)
+
+    def _set_url(self, url):
         pr = urlsplit(url)
         if ((len(pr.scheme) == 0 and len(pr.netloc) == 0)
                 or (pr.scheme in ['about', 'blob', 'data']
-                    and len(pr.path) == 0)):
+                    and len(pr.path) == 0)
+                or (len(pr.netloc) > 0 and pr.hostname is None)):
             raise ValueError('Invalid URL: ' + repr(url))
         self.protocol = pr.scheme
         if len(pr.netloc) == 0:
-- 
2.43.0


From eaca3feb9cdee19713867bbbf2ed21b11bf8b135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:35 +0000
Subject: [PATCH 29/70] fix: decode entities in xml-stylesheet
 pseudo-attributes

---
 svgpy/style.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index 0a68825..92ce592 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -14,6 +14,7 @@
 
 
 from logging import getLogger
+from xml.sax.saxutils import unescape
 
 from lxml import cssselect, etree
 
@@ -237,6 +238,11 @@ def get_css_style_sheets_from_svg_document(root):
     return style_sheets
 
 
+def _get_pseudo_attribute(pi, name):
+    # the values can contain references to the predefined entities
+    return unescape(pi.get(name, ''), {'&quot;': '"', '&apos;': '\''})
+
+
 def get_css_style_sheets_from_xml_stylesheet(root):
     style_sheets = list()
     doc = root.owner_document
@@ -256,13 +262,13 @@ def get_css_style_sheets_from_xml_stylesheet(root):
             continue
         elif element.target != 'xml-stylesheet':
             continue
-        href = element.get('href')
+        href = _get_pseudo_attribute(element, 'href')
         if (not href
                 or href[0] == '#'
-                or element.get('alternate', '') == 'yes'):
+                or _get_pseudo_attribute(element, 'alternate') == 'yes'):
             logger.debug('not a style sheet: {}'.format(element))
             continue  # TODO: support alternative style sheet.
-        media = element.get('media', '')
+        media = _get_pseudo_attribute(element, 'media')
         if media not in ['', 'all']:
             if win is None:
                 logger.debug('no active window: {}'.format(root))
@@ -272,7 +278,7 @@ def get_css_style_sheets_from_xml_stylesheet(root):
                 logger.debug('media not matched: media={}'.format(
                     repr(media)))
                 continue
-        encoding = element.get('charset')
+        encoding = _get_pseudo_attribute(element, 'charset') or None
         try:
             url = normalize_url(href, base_url)
         except ValueError as exp:
-- 
2.43.0


From 1b0331e7a62e90097a2b4e0b8c5e15118ed91f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:35 +0000
Subject: [PATCH 30/70] fix: map data-* names with digits or double hyphens to
 keys that find them

---
 svgpy/dom.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index c1e0cc7..6b8d09c 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -138,23 +138,9 @@ class DOMStringMap(MutableMapping):
         self._owner_element.attributes[name] = value
 
     def _convert_key(self, name):
-        _name = name[len(self._prefix):]
-        length = len(_name)
-        key = ''
-        start = 0
-        while start < length:
-            end = _name.find('-', start)
-            if end == -1:
-                end = length
-            if start == end:
-                key += '-'
-            else:
-                part = _name[start:end]
-                if start != 0:
-                    part = part.capitalize()
-                key += part
-            start = end + 1
-        return key
+        return _RE_DOM_STRING_MAP_INVALID_SYNTAX.sub(
+            lambda matched: matched.group()[1].upper(),
+            name[len(self._prefix):])
 
     def _convert_name(self, key):
         if _RE_DOM_STRING_MAP_INVALID_SYNTAX.search(key) is not None:
-- 
2.43.0


From 9e7263de197c6c69019617ad0851269fe486a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:10 +0000
Subject: [PATCH 31/70] fix: match any class token, split tokens on ASCII
 whitespace and leave arguments alone

---
 svgpy/dom.py   |  9 ++++-----
 svgpy/utils.py | 16 ++++++++++------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 6b8d09c..b426183 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -27,7 +27,8 @@ from .style import get_css_rules, get_css_style, \
     get_css_style_sheet_from_element
 from .utils import QualifiedName, get_elements_by_class_name, \
     get_elements_by_tag_name, get_elements_by_tag_name_ns, \
-    is_ascii_whitespace, split_priority, style_to_dict
+    is_ascii_whitespace, split_ascii_whitespace, split_priority, \
+    style_to_dict
 
 
 _RE_DOM_STRING_MAP_INVALID_SYNTAX = re.compile(r'-[a-z]')
@@ -200,9 +201,7 @@ class DOMTokenList(MutableSequence):
             if value in self._tokens:
                 return
         elif isinstance(value, list):
-            for token in list(value):
-                if token in self._tokens:
-                    value.remove(token)
+            value = [token for token in value if token not in self._tokens]
             if len(value) == 0:
                 return
         else:
@@ -216,7 +215,7 @@ class DOMTokenList(MutableSequence):
     def _tokens(self):
         """tuple[str, ...]: The token set."""
         value = self._owner_element.get(self._local_name, '')
-        tokens = tuple(value.split())
+        tokens = tuple(split_ascii_whitespace(value))
         return tokens
 
     @property
diff --git a/svgpy/utils.py b/svgpy/utils.py
index 0b785b6..fb01abe 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -112,19 +112,19 @@ def get_elements_by_class_name(element, class_names, nsmap=None,
     Returns:
         list[Element]: A list of elements.
     """
-    names = class_names.split()
+    names = split_ascii_whitespace(class_names)
     if len(names) == 0:
         return []
     if include_self:
         axis = 'descendant-or-self'
     else:
         axis = 'descendant'
-    patterns = [r're:test(@class, "(^| ){}($| )")'.format(x) for x in names]
+    patterns = ['contains(concat(" ", translate(@class, "\t\n\r", "   "), '
+                '" "), concat(" ", $name{}, " "))'.format(i)
+                for i in range(len(names))]
     expr = '{}::*[{}]'.format(axis, ' and '.join(patterns))
-    if nsmap is None:
-        nsmap = dict()
-    nsmap['re'] = 'http://exslt.org/regular-expressions'
-    return element.xpath(expr, namespaces=nsmap)
+    variables = {'name{}'.format(i): name for i, name in enumerate(names)}
+    return element.xpath(expr, namespaces=nsmap, **variables)
 
 
 def get_elements_by_tag_name(element, qualified_name, nsmap=None,
@@ -266,6 +266,10 @@ def split_priority(value):
     return value[:matched.start()].rstrip(), 'important'
 
 
+def split_ascii_whitespace(value):
+    return [x for x in re.split('[' + _ASCII_WHITESPACE + ']+', value) if x]
+
+
 def style_to_dict(text):
     """Converts the style attribute's value to a dictionary.
 
-- 
2.43.0


From 2a2dd20e92932f104626ee0da81967ddd5f7d5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:13 +0000
Subject: [PATCH 32/70] fix: check all nodes before a document changes and take
 a new root out of its old tree

---
 svgpy/window.py | 46 ++++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 5b5ef79..2df79d2 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -250,25 +250,40 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         """str: The entire URL of the current document."""
         return self._location.href
 
+    def _ensure_nodes_validity(self, nodes):
+        root = self._document_element
+        for node in nodes:
+            if isinstance(node, str):
+                raise HierarchyRequestError(
+                    "This node type '{}' cannot insert inside nodes of type "
+                    "'{}'".format('#text',
+                                  self.__class__.__name__))
+            self.ensure_pre_insertion_validity(node)
+            if isinstance(node, Element):
+                if root is None:
+                    root = node
+                elif node != root:
+                    raise TypeError(
+                        'Only processing instructions and comments can be '
+                        'siblings of the document element')
+            elif root is None:
+                raise HierarchyRequestError(
+                    "The Element node must be insert first")
+
     def append(self, *nodes):
         """Inserts sub-nodes after the last child node.
 
         Arguments:
             *nodes (Node, str, ...): A list of nodes to be added.
         """
+        self._ensure_nodes_validity(nodes)
         root = self._document_element
         last_child = None
         for node in nodes:
-            if isinstance(node, str):
-                raise HierarchyRequestError(
-                    "This node type '{}' cannot insert inside nodes of type "
-                    "'{}'".format('#text',
-                                  self.__class__.__name__))
-            self.ensure_pre_insertion_validity(node)
             if root is None:
-                if not isinstance(node, Element):
-                    raise HierarchyRequestError(
-                        "The Element node must be insert first")
+                parent = node.getparent()
+                if parent is not None:
+                    parent.remove(node)
                 node.attach_document(self)
                 root = self._document_element = node
             elif node == root:
@@ -435,11 +450,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
     def extend(self, nodes):
         """Extends the current children by the nodes in the iterable.
         """
-        if isinstance(nodes, (list, tuple)):
-            self.append(*nodes)
-            return
-        for node in nodes:
-            self.append(node)
+        self.append(*nodes)
 
     def get_element_by_id(self, element_id, nsmap=None):
         """Finds the first matching sub-element, by id.
@@ -589,15 +600,10 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         Arguments:
             *nodes (Node, str, ...): A list of nodes to be added.
         """
+        self._ensure_nodes_validity(nodes)
         root = self._document_element
         last_node = None
         for node in nodes:
-            if isinstance(node, str):
-                raise HierarchyRequestError(
-                    "This node type '{}' cannot insert inside nodes of type "
-                    "'{}'".format('#text',
-                                  self.__class__.__name__))
-            self.ensure_pre_insertion_validity(node)
             if root is None:
                 self.append(node)
                 root = node
-- 
2.43.0


From ffef43197316f73befdfcd36719679be88b8bf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:13 +0000
Subject: [PATCH 33/70] fix: leave tokens, Attr objects, text and children
 unchanged when a change is rejected

---
 svgpy/dom.py | 59 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index b426183..c5e8486 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -33,6 +33,10 @@ from .utils import QualifiedName, get_elements_by_class_name, \
 
 _RE_DOM_STRING_MAP_INVALID_SYNTAX = re.compile(r'-[a-z]')
 
+# https://www.w3.org/TR/xml/#NT-Char
+_RE_INVALID_XML_CHAR = re.compile(
+    r'[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
+
 # https://www.w3.org/TR/xml/#NT-Name
 _RE_XML_NAME = re.compile(
     r"^(:|[A-Z]|_|[a-z]|[\xc0-\xd6]|[\xd8-\xf6]"
@@ -46,6 +50,13 @@ _RE_XML_NAME = re.compile(
     r"|-|\.|[0-9]|\xb7|[\u0300-\u036f]|[\u203f-\u2040])*$")
 
 
+def ensure_xml_text(text):
+    """Raises ValueError if a string cannot be the text of an XML document."""
+    if _RE_INVALID_XML_CHAR.search(text) is not None:
+        raise ValueError('Not an XML compatible string: ' + repr(text))
+    return True
+
+
 def get_root_node(node):
     """Returns the root element of the tree that contains a node, or the
     topmost node if there is no such element.
@@ -270,6 +281,21 @@ class DOMTokenList(MutableSequence):
         """
         return token in self._tokens
 
+    def extend(self, tokens):
+        """Adds tokens to the end of this token set.
+
+        Arguments:
+            tokens (iterable): The tokens to be added.
+        """
+        tokens = list(tokens)
+        self._validate_tokens(tokens)
+        new_tokens = list(self._tokens)
+        for token in tokens:
+            if token not in new_tokens:
+                new_tokens.append(token)
+        if len(new_tokens) > len(self._tokens):
+            self._set_tokens(new_tokens)
+
     def insert(self, index, token):
         """Inserts `token` at the given position `index` in this token set.
 
@@ -429,10 +455,11 @@ class NamedNodeMap(MutableMapping):
                 if name in self._attrib:
                     del self[name]
                 return
-            old_attr = self._attr_map.get(name)
-            if old_attr is not None:
-                old_attr.detach_element()
+            old_value = self._attrib.get(name)
             value.attach_element(self._owner_element)
+            old_attr = self._attr_map.pop(name, None)
+            if old_attr is not None:
+                old_attr.detach_element(old_value)
             self._attr_map[name] = value  # replace or add it
         else:
             raise TypeError('Expected Attr or str, got ' + repr(type(value)))
@@ -1031,21 +1058,27 @@ class Attr(Node):
         if element is None or self._owner_element is not None:
             return False
         new_value = self._value
-        self._value = None
-        self._owner_element = element
         if new_value is not None:
-            self.value = new_value
+            if len(new_value) > 0:
+                element.set(self._qualified_name, new_value)
+            elif self._qualified_name in element.attrib:
+                del element.attrib[self._qualified_name]
+        self._owner_element = element
+        self._value = None
         return True
 
-    def detach_element(self):
+    def detach_element(self, last_value=None):
         """Detaches an element from an attribute object.
 
+        Arguments:
+            last_value (str, optional): The value to keep instead of the
+                current value of the attribute.
         Returns:
             Node: An element to be detached.
         """
         if self._owner_element is None:
             return None
-        self._value = self.value
+        self._value = last_value if last_value is not None else self.value
         owner_element = self._owner_element
         self._owner_element = None
         return owner_element
@@ -1537,9 +1570,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 
     @text_content.setter
     def text_content(self, text):
+        self.text = text
         for child in iter(self):
             self.remove(child)
-        self.text = text
 
     @staticmethod
     def _get_text_content(element):
@@ -1597,7 +1630,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             *nodes (Node, str, ...): A list of nodes to be added.
         """
         for node in nodes:
-            if not isinstance(node, str):
+            if isinstance(node, str):
+                ensure_xml_text(node)
+            else:
                 self.ensure_pre_insertion_validity(node)
         for node in nodes:
             if isinstance(node, str):
@@ -2201,7 +2236,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             *nodes (Node, str, ...): A list of nodes to be added.
         """
         for node in nodes:
-            if not isinstance(node, str):
+            if isinstance(node, str):
+                ensure_xml_text(node)
+            else:
                 self.ensure_pre_insertion_validity(node)
         text = '' if self.text is None else self.text
         if len(text) > 0:
-- 
2.43.0


From f84ad9ce35620a86bd976fbf9f1d8bd1f55901b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:39 +0000
Subject: [PATCH 34/70] fix: make a document forget its moved root element at
 once

---
 svgpy/dom.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index c5e8486..baecfae 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -697,6 +697,13 @@ class Node(ABC):
         Returns:
             bool: Returns True if successful; otherwise False.
         """
+        current = self._owner_document
+        if (current is not None
+                and current._root is self
+                and (current is not document
+                     or self.parent_node is not None)):
+            # the document element has been moved to another place
+            current._root = None
         if document is None:
             return False
         self._owner_document = document
-- 
2.43.0


From deb4765fafa6441e039162613105471b4e8bee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:50 +0000
Subject: [PATCH 35/70] fix: keep text and children when text_content is given
 invalid text

---
 svgpy/dom.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index baecfae..ede413e 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1577,6 +1577,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 
     @text_content.setter
     def text_content(self, text):
+        # raises an error before the current text is lost
+        etree.Element('text').text = text
         self.text = text
         for child in iter(self):
             self.remove(child)
-- 
2.43.0


From 930ad4e920d3363394eda4264e9b3de5e3884890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:22 +0000
Subject: [PATCH 36/70] fix: marker and view elements can be instantiated

Both classes inherited the abstract get_path_data(), so that touching any
<marker> or <view> element of a document raised a TypeError.
---
 svgpy/element.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index ddc2e7a..029d36e 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -474,7 +474,18 @@ class SVGLineElement(SVGGeometryElement):
 class SVGMarkerElement(SVGGraphicsElement):
     # TODO: implement the SVGMarkerElement.
     """Represents the [SVG2] <marker> element."""
-    pass
+
+    def get_path_data(self, settings=None):
+        """Returns a list of path segments that corresponds to the path data.
+
+        Arguments:
+            settings (SVGPathDataSettings, optional): If normalize is set to
+                True then the returned list of path segments is converted to
+                the base set of absolute commands ('M', 'L', 'C' and 'Z').
+        Returns:
+            list[SVGPathSegment]: A list of path segments.
+        """
+        return []
 
 
 class SVGMeshElement(SVGGeometryElement):
@@ -1135,7 +1146,18 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
 class SVGViewElement(SVGGraphicsElement, SVGFitToViewBox, SVGZoomAndPan):
     # TODO: implement the SVGViewElement.
     """Represents the [SVG2] <view> element."""
-    pass
+
+    def get_path_data(self, settings=None):
+        """Returns a list of path segments that corresponds to the path data.
+
+        Arguments:
+            settings (SVGPathDataSettings, optional): If normalize is set to
+                True then the returned list of path segments is converted to
+                the base set of absolute commands ('M', 'L', 'C' and 'Z').
+        Returns:
+            list[SVGPathSegment]: A list of path segments.
+        """
+        return []
 
 
 class SVGElementClassLookup(etree.CustomElementClassLookup):
-- 
2.43.0


From 23cbe05fde56117b10e192ee621481c61b954b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 37/70] fix: viewport size in viewport units

The size and the position of a viewport given in vw, vh, vmin or vmax recursed
without end unless a view box was in force, vmin and vmax ignored their number,
and the height was resolved against the new width instead of the parent's.
---
 svgpy/base.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 4f7bec8..e0eb72f 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -273,16 +273,17 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
                                 direction=SVGLength.DIRECTION_HORIZONTAL)
                 unit = vpw.unit
                 if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VW):
-                    vpw = vpw.value(SVGLength.TYPE_PERCENTAGE) / 100 \
+                    vpw = vpw.value(unit) / 100 \
                           * parent_vpw
                 elif unit == SVGLength.TYPE_VH:
-                    vpw = vpw.value(SVGLength.TYPE_PERCENTAGE) / 100 \
+                    vpw = vpw.value(unit) / 100 \
                           * parent_vph
                 elif unit == SVGLength.TYPE_VMAX:
-                    vpw = max(parent_vpw, parent_vph)
+                    vpw = vpw.value(unit) / 100 \
+                          * max(parent_vpw, parent_vph)
                 elif unit == SVGLength.TYPE_VMIN:
-                    vpw = min(parent_vpw, parent_vph)
-            parent_vpw = vpw
+                    vpw = vpw.value(unit) / 100 \
+                          * min(parent_vpw, parent_vph)
 
             _height = root.get('height', 'auto')
             if _height == 'auto':
@@ -295,15 +296,18 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
                                 direction=SVGLength.DIRECTION_VERTICAL)
                 unit = vph.unit
                 if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VH):
-                    vph = vph.value(SVGLength.TYPE_PERCENTAGE) / 100 \
+                    vph = vph.value(unit) / 100 \
                           * parent_vph
                 elif unit == SVGLength.TYPE_VW:
-                    vph = vph.value(SVGLength.TYPE_PERCENTAGE) / 100 \
+                    vph = vph.value(unit) / 100 \
                           * parent_vpw
                 elif unit == SVGLength.TYPE_VMAX:
-                    vph = max(parent_vpw, parent_vph)
+                    vph = vph.value(unit) / 100 \
+                          * max(parent_vpw, parent_vph)
                 elif unit == SVGLength.TYPE_VMIN:
-                    vph = min(parent_vpw, parent_vph)
+                    vph = vph.value(unit) / 100 \
+                          * min(parent_vpw, parent_vph)
+            parent_vpw = vpw
             parent_vph = vph
         if len(roots) == 0:
             vpx = SVGLength(0)
@@ -315,26 +319,26 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
                             direction=SVGLength.DIRECTION_HORIZONTAL)
             unit = vpx.unit
             if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VW):
-                vpx = vpx.value(SVGLength.TYPE_PERCENTAGE) / 100 * vpw
+                vpx = vpx.value(unit) / 100 * vpw
             elif unit == SVGLength.TYPE_VH:
-                vpx = vpx.value(SVGLength.TYPE_PERCENTAGE) / 100 * vph
+                vpx = vpx.value(unit) / 100 * vph
             elif unit == SVGLength.TYPE_VMAX:
-                vpx = max(vpw, vph)
+                vpx = vpx.value(unit) / 100 * max(vpw, vph)
             elif unit == SVGLength.TYPE_VMIN:
-                vpx = min(vpw, vph)
+                vpx = vpx.value(unit) / 100 * min(vpw, vph)
 
             vpy = SVGLength(root.get('y', '0'),
                             context=root,
                             direction=SVGLength.DIRECTION_VERTICAL)
             unit = vpy.unit
             if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VH):
-                vpy = vpy.value(SVGLength.TYPE_PERCENTAGE) / 100 * vph
+                vpy = vpy.value(unit) / 100 * vph
             elif unit == SVGLength.TYPE_VW:
-                vpy = vpy.value(SVGLength.TYPE_PERCENTAGE) / 100 * vpw
+                vpy = vpy.value(unit) / 100 * vpw
             elif unit == SVGLength.TYPE_VMAX:
-                vpy = max(vpw, vph)
+                vpy = vpy.value(unit) / 100 * max(vpw, vph)
             elif unit == SVGLength.TYPE_VMIN:
-                vpy = min(vpw, vph)
+                vpy = vpy.value(unit) / 100 * min(vpw, vph)
 
         # TODO: check a range: max-width, max-height, min-width and min-height.
         return vpx, vpy, vpw, vph
-- 
2.43.0


From 5f0009f0d856ec2616749194bcb369df4b6ee331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 38/70] fix: percentages without a direction do not need the
 viewport

A font size in percent looked up the viewport it does not depend on, which
recursed without end if the viewport size was given in rem.
---
 svgpy/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 3adf08b..223b5c0 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1382,11 +1382,11 @@ class SVGLength(object):
                         CSSUtils.compute_font_size(context))
 
         if (self._unit in [SVGLength.TYPE_VW, SVGLength.TYPE_VH,
-                           SVGLength.TYPE_VMIN, SVGLength.TYPE_VMAX,
-                           SVGLength.TYPE_PERCENTAGE]
+                           SVGLength.TYPE_VMIN, SVGLength.TYPE_VMAX]
                 or unit in [SVGLength.TYPE_VW, SVGLength.TYPE_VH,
-                            SVGLength.TYPE_VMIN, SVGLength.TYPE_VMAX,
-                            SVGLength.TYPE_PERCENTAGE]):
+                            SVGLength.TYPE_VMIN, SVGLength.TYPE_VMAX]
+                or (direction is not None
+                    and SVGLength.TYPE_PERCENTAGE in [self._unit, unit])):
             # <viewport-percentage lengths>: % | vw | vh | vmin | vmax
             if self._context is None:
                 vw = 100
-- 
2.43.0


From 2588bc998a51e5ed1baf7fb438a242b6d2389437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 39/70] fix: arithmetic on a length keeps its context element

The operators deep-copied the context element, so that the result was resolved
in a detached copy of a part of the document.
---
 svgpy/core.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 223b5c0..e25e5f4 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1051,14 +1051,14 @@ class SVGLength(object):
             self._number, self._unit = SVGLength.parse(value)
 
     def __abs__(self):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         x._number = abs(x._number)
         return x
 
     def __add__(self, other):
         if not isinstance(other, SVGLength):
             return NotImplemented
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if x._unit is None and other.unit is not None:
             x.convert(other.unit)
         x._number += Decimal(other.value(x._unit))
@@ -1147,7 +1147,7 @@ class SVGLength(object):
         return self._number < o
 
     def __mul__(self, other):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if isinstance(other, SVGLength):
             if x._unit is None and other.unit is not None:
                 x.convert(other.unit)
@@ -1159,16 +1159,16 @@ class SVGLength(object):
         return x
 
     def __neg__(self):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         x._number = -x._number
         return x
 
     def __pos__(self):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         return x
 
     def __pow__(self, power, modulo=None):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         x._number = pow(x._number, power, modulo)
         return x
 
@@ -1187,14 +1187,14 @@ class SVGLength(object):
     def __sub__(self, other):
         if not isinstance(other, SVGLength):
             return NotImplemented
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if x._unit is None and other.unit is not None:
             x.convert(other.unit)
         x._number -= Decimal(other.value(x._unit))
         return x
 
     def __truediv__(self, other):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if isinstance(other, SVGLength):
             if x._unit is None and other.unit is not None:
                 x.convert(other.unit)
-- 
2.43.0


From d97c3fda0f8905141383945262851c4f55f2e0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:39 +0000
Subject: [PATCH 40/70] fix: resolve rem units and use references in the tree
 of the element

Elements that were detached, moved or whose root was replaced were resolved in
the tree that lxml first parsed them into.
---
 svgpy/core.py    | 2 +-
 svgpy/element.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index e25e5f4..78b0383 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1358,7 +1358,7 @@ class SVGLength(object):
             if self._context is None:
                 root_font_size = Decimal(Font.default_font_size)
             else:
-                root = self._context.getroottree().getroot()
+                root = self._context.get_root_node()
                 root_font_size = Decimal(CSSUtils.compute_font_size(root))
 
         if (self._unit in [SVGLength.TYPE_EMS, SVGLength.TYPE_PERCENTAGE,
diff --git a/svgpy/element.py b/svgpy/element.py
index 029d36e..5467ef6 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1055,8 +1055,8 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
         elif href[0] != '#':
             # TODO: support external link.
             raise NotImplementedError(href)
-        root = self.getroottree().getroot()
-        element = root.get_element_by_id(href[1:])
+        root = self.get_root_node()
+        element = get_element_by_id(root, href[1:])
         return element
 
     def get_computed_geometry(self):
-- 
2.43.0


From a4a35c95f6a5773d499c16c919e6a0d59642b72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:21 +0000
Subject: [PATCH 41/70] fix: geometry, stroke and font sizes in ex, ch, cap or
 ic

Resolving one of these units needed the complete computed style, whose geometry
needed the length again, so that it recursed without end. The font depends on
the font properties only, and a font size on the font of the parent.
---
 svgpy/core.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 78b0383..bd366c0 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -135,6 +135,10 @@ class CSSUtils(object):
             # <length> or <percentage>
             # See https://drafts.csswg.org/css-values-3/#lengths
             fs = SVGLength(font_size, context=element)
+            if fs.unit in [SVGLength.TYPE_EXS, SVGLength.TYPE_CAPS,
+                           SVGLength.TYPE_CHS, SVGLength.TYPE_ICS]:
+                # refer to the font of the parent element
+                fs = SVGLength(font_size, context=element.getparent())
             px = fs.value()
 
         if px < CSSUtils._MINIMUM_FONT_SIZE:
@@ -627,7 +631,16 @@ class Font(object):
             context (Element): An Element object.
         """
         self._context = context
-        self._style = context.get_computed_style()
+        # The font properties only: the geometry and the other properties of
+        # the computed style may depend on this font.
+        style = context.get_inherited_style()
+        style['font-size'] = CSSUtils.compute_font_size(
+            context,
+            inherited_style=style)
+        style['font-weight'] = CSSUtils.compute_font_weight(
+            context,
+            inherited_style=style)
+        self._style = style
         self._face = FontManager.get_face(self._style,
                                           context.owner_document,
                                           context.text)
@@ -660,7 +673,7 @@ class Font(object):
 
     @property
     def attributes(self):
-        return self._style
+        return self._context.get_computed_style()
 
     @property
     def cap_height(self):
-- 
2.43.0


From 40977272dcaf84850de946d514fe8ea6c57929e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:16 +0000
Subject: [PATCH 42/70] fix: keep the important flag of a rewritten inline
 declaration

Assigning a new value to an important inline declaration kept the priority in
the style object, but dropped it from the style attribute.
---
 svgpy/css/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 05db5a3..ed3189d 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -135,6 +135,13 @@ class _StyleAttribute(object):
 
         if not updated and len(value) > 0:
             updated = True
+            if (property_name in style_map
+                    and property_name in self._declarations
+                    and self._declarations[property_name][1] == 'important'
+                    and (split_priority(style_map[property_name])[1]
+                         == 'important')):
+                # the rewritten declaration is still important
+                value += ' !important'
             style_map[property_name] = value
         return updated
 
-- 
2.43.0


From f61dcd6ec9d6437c8b18718fa8355db64773635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:38 +0000
Subject: [PATCH 43/70] fix: leave the caller's namespace map unchanged

create_element_ns() added the default namespace to the given dictionary.
---
 svgpy/element.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index 5467ef6..2f1b6df 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1350,8 +1350,7 @@ class SVGParser(object):
             >>> e.tag, e.node_name, e.tag_name, e.local_name
             ('{http://www.w3.org/1999/xhtml}source', 'html:source', 'html:source', 'source')
         """
-        if nsmap is None:
-            nsmap = dict()
+        nsmap = dict() if nsmap is None else dict(nsmap)
         if None not in nsmap:
             nsmap[None] = Element.SVG_NAMESPACE_URI
         qname = QualifiedName(namespace, qualified_name)
-- 
2.43.0


From 829f5349a874e639d2a731bf3ec2e2a7838ae313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 44/70] fix: create comments and instructions of the parser in
 every thread

create_comment() and create_processing_instruction() relied on the default
parser of the current thread, so that they returned plain lxml nodes in a thread
that had not constructed an SVGParser.
---
 svgpy/element.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index 2f1b6df..9655587 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1240,6 +1240,15 @@ class SVGParser(object):
         """lxml.etree.XMLParser: The XML parser."""
         return self._parser
 
+    def _create_node(self, factory, *args):
+        # The factory uses the default parser of the current thread; the class
+        # of the node is the one of the parser of the tree it is moved to.
+        holder = self._parser.makeelement('_')
+        etree.ElementBase.append(holder, factory(*args))
+        node = holder[0]
+        etree.ElementBase.remove(holder, node)
+        return node
+
     def create_attribute(self, local_name):
         """Creates a new attribute instance, and returns it.
         See also Document.create_attribute().
@@ -1279,9 +1288,7 @@ class SVGParser(object):
         Returns:
             Comment: A new comment.
         """
-        _ = self
-        comment = etree.Comment(data)
-        return comment
+        return self._create_node(etree.Comment, data)
 
     def create_document(self, namespace, qualified_name=None, doctype=None,
                         nsmap=None, **extra):
@@ -1374,9 +1381,7 @@ class SVGParser(object):
             >>> pi.tostring()
             b'<?xml-stylesheet href="style.css" media="print"?>'
         """
-        _ = self
-        pi = etree.ProcessingInstruction(target, data)
-        return pi
+        return self._create_node(etree.ProcessingInstruction, target, data)
 
     def create_svg_document(self, nsmap=None, **extra):
         """Creates a new SVG document instance, and returns it.
-- 
2.43.0


From eaa002a1e43f464722dcb57838cbef28901fea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 45/70] fix: font sizes of the root element in rem

---
 svgpy/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgpy/core.py b/svgpy/core.py
index bd366c0..bafb72a 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -139,6 +139,10 @@ class CSSUtils(object):
                            SVGLength.TYPE_CHS, SVGLength.TYPE_ICS]:
                 # refer to the font of the parent element
                 fs = SVGLength(font_size, context=element.getparent())
+            elif (fs.unit == SVGLength.TYPE_REMS
+                  and element.getparent() is None):
+                # refer to the initial value on the root element
+                fs = SVGLength(font_size)
             px = fs.value()
 
         if px < CSSUtils._MINIMUM_FONT_SIZE:
-- 
2.43.0


From 7c39d5594b023c9fdd8d44c78738d884e8b2d8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 46/70] fix: keep the important flag of rewritten longhand and
 shorthand declarations

---
 svgpy/css/__init__.py | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index ed3189d..0fd2393 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -27,7 +27,8 @@ from .longhands import Longhand
 from .props import PropertyDescriptor, PropertySyntax, \
     css_color_keyword_set, css_property_descriptor_map, css_wide_keyword_set
 from .screen import Screen, ScreenOrientation
-from .shorthands import Shorthand, font_sub_property_list
+from .shorthands import Shorthand, font_sub_property_list, \
+    get_longhand_list
 from .types import CSSKeywordValue, CSSImageValue, CSSMathClamp, \
     CSSMathInvert, CSSMathMax, CSSMathMin, CSSMathNegate, CSSMathOperator, \
     CSSMathProduct, CSSMathSum, CSSMathValue, CSSNumericBaseType, \
@@ -56,6 +57,20 @@ class _StyleAttribute(object):
         attr = owner_node.attributes.get_named_item_ns(None, 'style')
         style = '' if attr is None else attr.value
         self._style_map = style_to_dict(style)
+        # the declarations that are important in the style attribute
+        self._important = set()
+        for property_name, value in self._style_map.items():
+            if split_priority(value)[1] == 'important':
+                self._important.add(property_name)
+                self._important.update(get_longhand_list(property_name))
+
+    def _add_priority(self, property_name, value):
+        # keep the important flag of the rewritten declaration
+        if (property_name in self._important
+                and property_name in self._declarations
+                and self._declarations[property_name][1] == 'important'):
+            value += ' !important'
+        return value
 
     def _remove(self, property_name, force=False):
         style_map = self._style_map
@@ -95,7 +110,8 @@ class _StyleAttribute(object):
                         if longhand_name in declarations:
                             updated = True
                             longhand_value = declarations[longhand_name][0]
-                            style_map[longhand_name] = longhand_value
+                            style_map[longhand_name] = self._add_priority(
+                                longhand_name, longhand_value)
 
         return updated
 
@@ -135,14 +151,8 @@ class _StyleAttribute(object):
 
         if not updated and len(value) > 0:
             updated = True
-            if (property_name in style_map
-                    and property_name in self._declarations
-                    and self._declarations[property_name][1] == 'important'
-                    and (split_priority(style_map[property_name])[1]
-                         == 'important')):
-                # the rewritten declaration is still important
-                value += ' !important'
-            style_map[property_name] = value
+            style_map[property_name] = self._add_priority(property_name,
+                                                          value)
         return updated
 
     def _set_longhand_from_shorthand(self, shorthand_name):
@@ -157,7 +167,8 @@ class _StyleAttribute(object):
             if longhand_name in declarations:
                 updated = True
                 longhand_value = declarations[longhand_name][0]
-                style_map[longhand_name] = longhand_value
+                style_map[longhand_name] = self._add_priority(
+                    longhand_name, longhand_value)
             elif Shorthand.is_shorthand(longhand_name):
                 _updated = self._set_shorthand(longhand_name)
                 if _updated:
@@ -174,6 +185,13 @@ class _StyleAttribute(object):
         result = shorthand.get_property_value(property_name)
         if len(result) > 0:
             updated = True
+            longhand_names = [
+                x for x in get_longhand_list(property_name)
+                if x in self._declarations]
+            if (self._important.issuperset(longhand_names)
+                    and (shorthand.get_property_priority(property_name)
+                         == 'important')):
+                result += ' !important'
             style_map[property_name] = result
             longhand_names = Shorthand.longhands(property_name)
             for longhand_name in longhand_names:
-- 
2.43.0


From 130cde75edb4ae34b7c36ebe4cb1578a72393a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 47/70] fix: node objects are usable by other threads while
 they are initialized

Another thread that reaches a node while its object is being initialized
found no attributes, class list, dataset, style or owner document.
---
 svgpy/base.py    |  6 +-----
 svgpy/dom.py     | 34 +++++++++++++++++++++-------------
 svgpy/element.py | 15 ++++-----------
 3 files changed, 26 insertions(+), 29 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index e0eb72f..e32d8f0 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -30,10 +30,6 @@ from .utils import QualifiedName
 class HTMLOrSVGElement(Element):
     """Represents the [HTML] HTMLOrSVGElement."""
 
-    def _init(self):
-        super()._init()
-        self._dataset = DOMStringMap(self, 'data-')
-
     @property
     def dataset(self):
         """DOMStringMap: A DOMStringMap object for the element's data-*
@@ -51,7 +47,7 @@ class HTMLOrSVGElement(Element):
             >>> root.tostring()
             b'<svg xmlns="http://www.w3.org/2000/svg" data-foo="foo" data-foo-bar="foo-bar"/>'
         """
-        return self._dataset
+        return self._get_view('_dataset', DOMStringMap, self, 'data-')
 
 
 class HTMLElement(ElementCSSInlineStyle, HTMLOrSVGElement):
diff --git a/svgpy/dom.py b/svgpy/dom.py
index ede413e..0164043 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -476,10 +476,9 @@ class NamedNodeMap(MutableMapping):
             del self._attr_map[name]
             return None
         elif attr is None and name in self._attrib:
-            self._attr_map[name] = attr = Attr(
-                None,
+            attr = self._attr_map.setdefault(
                 name,
-                owner_element=self._owner_element)
+                Attr(None, name, owner_element=self._owner_element))
         return attr
 
     def get_named_item(self, qualified_name):
@@ -580,8 +579,20 @@ class Node(ABC):
     COMMENT_NODE = 8
     DOCUMENT_NODE = 9
 
+    # A node object can be in use by another thread while it is initialized,
+    # so its state starts from the class, or is made on demand.
+    _owner_document = None
+
     def __init__(self):
-        self._owner_document = None
+        pass
+
+    def _get_view(self, name, view_class, *args, **kwargs):
+        view = self.__dict__.get(name)
+        if view is None:
+            view = self.__dict__.setdefault(
+                name,
+                view_class(*args, **kwargs))
+        return view
 
     @property
     @abstractmethod
@@ -1431,8 +1442,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 
     def _init(self):
         Node.__init__(self)
-        self._attributes = NamedNodeMap(self)
-        self._class_list = DOMTokenList(self, 'class')
 
     @property
     def attributes(self):
@@ -1450,7 +1459,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             >>> root.tostring()
             b'<svg xmlns="http://www.w3.org/2000/svg" viewBox="0 0 600 400" xml:lang="ja"/>'
         """
-        return self._attributes
+        return self._get_view('_attributes', NamedNodeMap, self)
 
     @property
     def child_nodes(self):
@@ -1467,7 +1476,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
     @property
     def class_list(self):
         """DOMTokenList: A list of classes."""
-        return self._class_list
+        return self._get_view('_class_list', DOMTokenList, self, 'class')
 
     @property
     def class_name(self):
@@ -2442,10 +2451,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 class ElementCSSInlineStyle(Element):
     """Represents the [cssom] ElementCSSInlineStyle."""
 
-    def _init(self):
-        super()._init()
-        self._style = CSSStyleDeclaration(owner_node=self, inline_style=True)
-
     @property
     def style(self):
         """CSSStyleDeclaration: A CSS declaration block object.
@@ -2463,7 +2468,10 @@ class ElementCSSInlineStyle(Element):
             >>> g.attributes['style'].value
             'fill: none; stroke-width: 3; stroke: blue;'
         """
-        return self._style
+        return self._get_view('_style',
+                              CSSStyleDeclaration,
+                              owner_node=self,
+                              inline_style=True)
 
 
 class LinkStyle(Element):
diff --git a/svgpy/element.py b/svgpy/element.py
index 9655587..3359a2c 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -49,11 +49,6 @@ class HTMLIFrameElement(HTMLElement):
 class HTMLLinkElement(HTMLElement, LinkStyle):
     """Represents the [HTML] <link> element."""
 
-    def _init(self):
-        super()._init()
-        self._rel_list = DOMTokenList(self, 'rel')
-        self._sizes = DOMTokenList(self, 'sizes')
-
     @property
     def as_(self):
         """str: The potential destination for a preload request
@@ -134,14 +129,14 @@ class HTMLLinkElement(HTMLElement, LinkStyle):
     @property
     def rel_list(self):
         """DOMTokenList: Reflects the 'rel' attribute, as a list of tokens."""
-        return self._rel_list
+        return self._get_view('_rel_list', DOMTokenList, self, 'rel')
 
     @property
     def sizes(self):
         """DOMTokenList: The sizes of the icons (for rel="icon"), as a list of
         tokens.
         """
-        return self._sizes
+        return self._get_view('_sizes', DOMTokenList, self, 'sizes')
 
     @property
     def type(self):
@@ -851,10 +846,8 @@ class SVGStyleElement(SVGElement, LinkStyle):
 class SVGSVGElement(SVGGraphicsElement, SVGFitToViewBox, SVGZoomAndPan):
     """Represents the [SVG2] <svg> element."""
 
-    def _init(self):
-        super()._init()
-        self._current_scale = 1
-        self._current_translate = 0, 0
+    _current_scale = 1
+    _current_translate = 0, 0
 
     @property
     def current_scale(self):
-- 
2.43.0


From 8ca3498f4f7c7827f7d8cb1b7d51cf4acb972d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 48/70] fix: selectors of an element select only in its subtree

---
 svgpy/dom.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 0164043..5b9aabd 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2286,7 +2286,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         if uri is not None:
             nsmap['svg'] = uri
         sel = cssselect.CSSSelector(selectors, namespaces=nsmap)
-        return sel(self)
+        # a sibling combinator can leave the subtree
+        return [x for x in sel(self)
+                if x is self or self in x.iterancestors()]
 
     def remove(self, node=None):
         """Removes a matching sub-node. Unlike the find methods, this method
-- 
2.43.0


From d4eb13861b3b0f855f3e3d3e15b4ab6e473a0e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 49/70] fix: ignore invalid names and values of style
 declarations

---
 svgpy/css/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 0fd2393..64e4c3c 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -41,6 +41,9 @@ from ..utils import CaseInsensitiveMapping, dict_to_style, get_content_type, \
 
 _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}')
 
+_RE_PROPERTY_NAME = re.compile(
+    r'(--|-?[A-Za-z_\u0080-\U0010ffff])[-0-9A-Za-z_\u0080-\U0010ffff]*')
+
 
 def normalize_text(text):
     out_text = text.strip().replace(
@@ -1442,6 +1445,9 @@ class CSSStyleDeclaration(MutableMapping):
     def _set_css_declaration(self, declarations, property_name,
                              component_list, priority):
         _ = self
+        if any(x.type == 'error' or x in (';', '!') for x in component_list):
+            # not a value of a declaration
+            return False
         value = tinycss2.serialize(component_list).strip()
         if len(value) == 0:
             return False
@@ -1589,6 +1595,9 @@ class CSSStyleDeclaration(MutableMapping):
             priority = priority.lower()
         if priority not in ('', 'important'):
             return
+        if not _RE_PROPERTY_NAME.fullmatch(property_name):
+            # not a name of a declaration
+            return
         declarations = self._declarations()
         if self._inline_style:
             declarations = declarations.copy()
-- 
2.43.0


From d5b8a7a764e165e5b176c00a50164d920eb6d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 50/70] fix: comments in the style attribute are not part of
 declarations

---
 svgpy/utils.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index fb01abe..0ef22d4 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -297,11 +297,24 @@ def style_to_dict(text):
     return style
 
 
+def _remove_comment(matched):
+    # a comment that is all there is between two tokens remains
+    if not matched.group().startswith('/*'):
+        return matched.group()
+    text = matched.string
+    for char in (text[matched.start() - 1:matched.start()],
+                 text[matched.end():matched.end() + 1]):
+        if len(char) == 0 or char in _ASCII_WHITESPACE + ':;!':
+            return ''
+    return matched.group()
+
+
 def _split_declarations(text):
     # ';' does not end a declaration inside of a string or a block
     declarations = list()
     start = 0
     closing = list()
+    text = _RE_DECLARATION_TOKEN.sub(_remove_comment, text)
     for it in _RE_DECLARATION_TOKEN.finditer(text):
         token = it.group()
         if token in _BLOCKS:
-- 
2.43.0


From abc20f2317ac09584b4673dea40123439e3bc191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 51/70] fix: geometry of svg elements below elements of other
 kinds

---
 svgpy/base.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index e32d8f0..01133cc 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -199,6 +199,13 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
             element = element.getparent()
         return None
 
+    def _get_parent_svg_element(self):
+        # an ancestor can be an HTML element, or of an unknown namespace
+        element = self.getparent()
+        while element is not None and not isinstance(element, SVGElement):
+            element = element.getparent()
+        return element
+
     def get_view_box(self, recursive=True):
         """Gets values of the 'viewBox' and 'preserveAspectRatio' attributes
         from nearest ancestor element that establishes an SVG viewport.
@@ -221,7 +228,7 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
                 return vbx, vby, vbw, vbh, par
             if not recursive:
                 return None
-            element = root.getparent()
+            element = root._get_parent_svg_element()
         return None
 
     def get_viewport_size(self, recursive=True):
@@ -242,7 +249,7 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
             roots.insert(0, root)
             if not recursive:
                 break
-            element = root.getparent()
+            element = root._get_parent_svg_element()
 
         win = (self.owner_document.default_view
                if self.owner_document is not None
@@ -386,7 +393,7 @@ class SVGGraphicsElement(SVGElement):
                     if (self.local_name not in ('svg', 'symbol')
                             or len(roots) >= 2):
                         break
-                element = root.getparent()
+                element = root._get_parent_svg_element()
         if len(roots) == 0:
             return ctm
 
@@ -401,10 +408,11 @@ class SVGGraphicsElement(SVGElement):
         transform_list = SVGTransformList()
         element = self
         while element is not None:
-            if element.istransformable():
-                transform = element.transform
-                if transform is not None:
-                    transform_list[0:0] = transform
+            if (isinstance(element, SVGElement)
+                    and element.istransformable()):
+                transform = element.get('transform', 'none')
+                if transform != 'none':
+                    transform_list[0:0] = SVGTransformList.parse(transform)
             if element.local_name in ('svg', 'symbol'):
                 break
             element = element.getparent()
-- 
2.43.0


From 2f2f7e625cfe9a7b18a4965c744b97323cb91ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 52/70] fix: query parameters survive the round trip through
 URL.search

'?a=b=c' lost everything after the second '=', '+' in a parameter came back
as a space, '=' and '?' in a name came back as a delimiter, and the order of
the query changed when the href was parsed again.
---
 svgpy/url.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 01b8592..9a01f43 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -444,19 +444,21 @@ class URL(object):
             return ''
         queries = list()
         # unsafe:
-        # U+0020 (SP), U+0023 (#), U+0026 (&), and U+0027 (')
-        safe = '!$%()*+,-./:;=?@[\\]^_`{|}~'
+        # U+0020 (SP), U+0023 (#), U+0026 (&), U+0027 ('), and U+002B (+)
+        # unsafe in a key:
+        # U+003D (=), and U+003F (?)
+        key_safe = '!$%()*,-./:;@[\\]^_`{|}~'
+        safe = key_safe + '=?'
         # FIXME: implement URLSearchParams.sort().
-        for key in sorted(self._search_params):
-            value = self._search_params[key]
+        for key, value in self._search_params.items():
             key = quote_numeric_character_references(key,
                                                      quote_via=quote_plus,
-                                                     safe=safe)
+                                                     safe=key_safe)
             value = quote_numeric_character_references(value,
                                                        quote_via=quote_plus,
                                                        safe=safe)
-            query = '{}={}'.format(key, value)
-            queries.append(query)
+            queries.append((key, value))
+        queries = ['{}={}'.format(*x) for x in sorted(queries)]
         return '?' + '&'.join(queries)
 
     @search.setter
@@ -467,11 +469,9 @@ class URL(object):
             return
         pairs = query.split('&')
         for pair in pairs:
-            kv = pair.split('=')
-            if len(kv) < 2:
-                kv.append('')
-            key = kv[0].replace('+', ' ')
-            value = kv[1].replace('+', ' ')
+            key, _, value = pair.partition('=')
+            key = key.replace('+', ' ')
+            value = value.replace('+', ' ')
             self._search_params[key] = value
 
     @property
-- 
2.43.0


From f8895f24ad10a3e831556072fd82ecef89c457df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 53/70] fix: the port of a URL is kept with a new host name and
 has one form

Setting hostname to an IPv6 address dropped the port from the host while
port still reported it; '0080' was not the default port 80.
---
 svgpy/url.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 9a01f43..b91a002 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -411,6 +411,7 @@ class URL(object):
             return
         elif not port.isdigit() or int(port) > 2 ** 16 - 1:
             raise ValueError('Invalid port: ' + repr(port))
+        port = str(int(port))
         self._port = port
         self._host = self._hostname
         if (len(port) > 0
@@ -532,12 +533,8 @@ class URL(object):
                 self.port = host[end + 1:]
         else:
             # hostname state
-            if end < 0:
-                self.port = self._port
-            else:
-                port = host[end + 1:]
-                if len(port) > 0:
-                    self.port = port
+            port = host[end + 1:] if end >= 0 else ''
+            self.port = port if len(port) > 0 else self._port
 
     def _parse_url(self, url):
         # an invalid URL changes nothing
-- 
2.43.0


From a4f8302cf5876c3da1fffdba610db20db3dbe9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 54/70] fix: normalize a URL path only after the leading slash
 is added

pathname = '..' gave '/..'.
---
 svgpy/url.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index b91a002..fbe4b63 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -383,6 +383,9 @@ class URL(object):
                 and self._protocol in _SPECIAL_SCHEMES_PORT_NUMBERS
                 and '\\' in pathname):
             raise ValueError('Invalid pathname: ' + repr(pathname))
+        if (self._protocol not in ['about:', 'blob:', 'data:']
+                and not pathname.startswith('/')):
+            pathname = '/' + pathname
         if self._protocol not in ['blob:', 'data:']:
             pathname = unquote(pathname).replace('\\', '/')
             # U+0026 (&)
@@ -393,9 +396,6 @@ class URL(object):
             pathname = os.path.normpath(pathname).replace('\\', '/')
             if sep and not pathname.endswith('/'):
                 pathname += '/'
-        if (self._protocol not in ['about:', 'blob:', 'data:']
-                and not pathname.startswith('/')):
-            pathname = '/' + pathname
         self._pathname = pathname
 
     @property
-- 
2.43.0


From 558030c419716a462ee032bcd41deee77e8a02f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 55/70] fix: an invalid overflow value is ignored

OverflowShorthand.set_property() raised KeyError for a value that is not a
pair of overflow keywords, from set_property(), style sheets and style
attributes alike. Such a declaration is invalid and now ignored.
---
 svgpy/css/shorthands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index 3886b35..0afaf9a 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -728,7 +728,7 @@ class OverflowShorthand(ShorthandProperty):
             for property_name in shorthand_property_map['overflow']:
                 components_map[property_name] = initial_value.copy()
         else:
-            temp = [x for x in components_map['overflow-x']
+            temp = [x for x in components_map.get('overflow-x', ())
                     if x.type != 'whitespace']
             if not (1 <= len(temp) <= 2):
                 return False
-- 
2.43.0


From 51968e34d344fe451d372bd6023c6ad0c2bb970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:49 +0000
Subject: [PATCH 56/70] fix: resolve viewport lengths of different units before
 fitting the view box

get_viewport_transformation_matrix() compared and converted scale factors
that carried the units of width and height, so width="10cm" with a height in
pixels scaled by a factor of 0.0635 instead of 2.4.
---
 svgpy/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 01133cc..61e154e 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -527,7 +527,10 @@ class SVGGraphicsElement(SVGElement):
             return ctm
         if ew is None or eh is None:
             return ctm
-        vbx, vby, vbw, vbh, par = view_box
+        # lengths in different units are not comparable: resolve them first
+        ex, ey, ew, eh = [x.value() for x in (ex, ey, ew, eh)]
+        vbx, vby, vbw, vbh = [x.value() for x in view_box[:4]]
+        par = view_box[4]
         align = par.align
         if align == SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_UNKNOWN:
             align = SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_XMIDYMID
@@ -569,8 +572,8 @@ class SVGGraphicsElement(SVGElement):
                      SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_XMAXYMAX):
             # 'YMax'
             ty += eh - vbh * sy
-        ctm.translate_self(tx.value(), ty.value())
-        ctm.scale_self(sx.value(tx.unit), sy.value(tx.unit))
+        ctm.translate_self(tx, ty)
+        ctm.scale_self(sx, sy)
         return ctm
 
 
-- 
2.43.0


From 4378fd8b2c988c185f9c40959533542f4619e1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 57/70] fix: the bounding box of a horizontal or vertical line
 has its length

DOMRect.unite_self() ignored the far edge of a rectangle that has a width or
a height only, so get_bbox() of an axis-aligned line was a point.
---
 svgpy/geometry/rect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index 4caf1a3..f5a1649 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -595,7 +595,7 @@ class DOMRect(DOMRectReadOnly):
         elif y > y2:
             y2 = y
 
-        if width > 0 and height > 0:
+        if width > 0 or height > 0:
             right = x + width
             bottom = y + height
             if x2 is None or right > x2:
-- 
2.43.0


From 36ca08cd5f214ccdf4a678348c1f4467708340b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 58/70] fix: destroy the pattern FontConfig.match() found once

FcFontSetAdd() takes over the caller's reference, so the font set and the
pattern's own destructor both released it.
---
 svgpy/fontconfig.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/svgpy/fontconfig.py b/svgpy/fontconfig.py
index 1d30b4d..fdb7f2d 100644
--- a/svgpy/fontconfig.py
+++ b/svgpy/fontconfig.py
@@ -242,19 +242,14 @@ class FontConfig(object):
                      lib.FcPatternDestroy)
         lib.FcConfigSubstitute(ffi.NULL, pat, lib.FcMatchPattern)
         lib.FcDefaultSubstitute(pat)
-        fs = ffi.gc(lib.FcFontSetCreate(),
-                    lib.FcFontSetDestroy)
         result = ffi.new('FcResult *')
         match = ffi.gc(lib.FcFontMatch(ffi.NULL, pat, result),
                        lib.FcPatternDestroy)
-        lib.FcFontSetAdd(fs, match)
-        font_sequence = list()
-        for i in range(0, fs.nfont):
-            font = ffi.gc(lib.FcPatternFilter(fs.fonts[i], ffi.NULL),
-                          lib.FcPatternDestroy)
-            patfmt = ffi.gc(lib.FcPatternFormat(font, fmt),
-                            lib.FcStrFree)
-            font_sequence.append(ffi.string(patfmt).decode())
+        font = ffi.gc(lib.FcPatternFilter(match, ffi.NULL),
+                      lib.FcPatternDestroy)
+        patfmt = ffi.gc(lib.FcPatternFormat(font, fmt),
+                        lib.FcStrFree)
+        font_sequence = [ffi.string(patfmt).decode()]
         return font_sequence
 
     @staticmethod
-- 
2.43.0


From 47cd30fe0330e43a8e2f9e80041b85819cccd02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 59/70] fix: raise when fontconfig returns nothing instead of
 passing it on

A malformed font pattern makes FcNameParse() return NULL, and using that
(or releasing a NULL font set) crashes the interpreter.
---
 svgpy/fontconfig.py | 63 ++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/svgpy/fontconfig.py b/svgpy/fontconfig.py
index fdb7f2d..1b48eb0 100644
--- a/svgpy/fontconfig.py
+++ b/svgpy/fontconfig.py
@@ -191,10 +191,25 @@ class FontConfig(object):
 
     version = lib.FcGetVersion()
 
+    @staticmethod
+    def _own(cdata, destructor, name):
+        # owns an object returned by fontconfig
+        if cdata == ffi.NULL:
+            raise RuntimeError(name + '() failed.')
+        return ffi.gc(cdata, destructor)
+
+    @staticmethod
+    def _parse_pattern(fc_pattern):
+        pattern = lib.FcNameParse(fc_pattern.encode())
+        if pattern == ffi.NULL:
+            raise ValueError('Invalid font pattern: ' + repr(fc_pattern))
+        return ffi.gc(pattern, lib.FcPatternDestroy)
+
     @staticmethod
     def get_config_files():
-        cdata = ffi.gc(lib.FcConfigGetConfigFiles(ffi.NULL),
-                       lib.FcStrListDone)
+        cdata = FontConfig._own(lib.FcConfigGetConfigFiles(ffi.NULL),
+                                lib.FcStrListDone,
+                                'FcConfigGetConfigFiles')
         files = list()
         while True:
             item = lib.FcStrListNext(cdata)
@@ -207,11 +222,11 @@ class FontConfig(object):
     def list(fc_pattern=None, fc_elements=None, fc_format=None):
         # See https://www.freedesktop.org/software/fontconfig/fontconfig-devel/fcpatternformat.html
         if fc_pattern is None:
-            pat = ffi.gc(lib.FcPatternCreate(),
-                         lib.FcPatternDestroy)
+            pat = FontConfig._own(lib.FcPatternCreate(),
+                                  lib.FcPatternDestroy,
+                                  'FcPatternCreate')
         else:
-            pat = ffi.gc(lib.FcNameParse(fc_pattern.encode()),
-                         lib.FcPatternDestroy)
+            pat = FontConfig._parse_pattern(fc_pattern)
         if fc_elements is None:
             fc_elements = [FontConfig.FC_FAMILY, FontConfig.FC_STYLE,
                            FontConfig.FC_FILE]
@@ -220,14 +235,17 @@ class FontConfig(object):
         if fc_format is None:
             fc_format = '%{=fclist}'
         fmt = fc_format.encode()
-        os = ffi.gc(lib.FcObjectSetBuild(*elements),
-                    lib.FcObjectSetDestroy)
-        fs = ffi.gc(lib.FcFontList(ffi.NULL, pat, os),
-                    lib.FcFontSetDestroy)
+        os = FontConfig._own(lib.FcObjectSetBuild(*elements),
+                             lib.FcObjectSetDestroy,
+                             'FcObjectSetBuild')
+        fs = FontConfig._own(lib.FcFontList(ffi.NULL, pat, os),
+                             lib.FcFontSetDestroy,
+                             'FcFontList')
         font_sequence = list()
         for i in range(0, fs.nfont):
-            patfmt = ffi.gc(lib.FcPatternFormat(fs.fonts[i], fmt),
-                            lib.FcStrFree)
+            patfmt = FontConfig._own(lib.FcPatternFormat(fs.fonts[i], fmt),
+                                     lib.FcStrFree,
+                                     'FcPatternFormat')
             data = ffi.string(patfmt)
             if len(data) > 0:
                 font_sequence.append(data.decode())
@@ -238,18 +256,21 @@ class FontConfig(object):
         if fc_format is None:
             fc_format = '%{=fcmatch}'
         fmt = fc_format.encode()
-        pat = ffi.gc(lib.FcNameParse(fc_pattern.encode()),
-                     lib.FcPatternDestroy)
+        pat = FontConfig._parse_pattern(fc_pattern)
         lib.FcConfigSubstitute(ffi.NULL, pat, lib.FcMatchPattern)
         lib.FcDefaultSubstitute(pat)
         result = ffi.new('FcResult *')
-        match = ffi.gc(lib.FcFontMatch(ffi.NULL, pat, result),
-                       lib.FcPatternDestroy)
-        font = ffi.gc(lib.FcPatternFilter(match, ffi.NULL),
-                      lib.FcPatternDestroy)
-        patfmt = ffi.gc(lib.FcPatternFormat(font, fmt),
-                        lib.FcStrFree)
-        font_sequence = [ffi.string(patfmt).decode()]
+        match = lib.FcFontMatch(ffi.NULL, pat, result)
+        font_sequence = list()
+        if match != ffi.NULL:
+            match = ffi.gc(match, lib.FcPatternDestroy)
+            font = FontConfig._own(lib.FcPatternFilter(match, ffi.NULL),
+                                   lib.FcPatternDestroy,
+                                   'FcPatternFilter')
+            patfmt = FontConfig._own(lib.FcPatternFormat(font, fmt),
+                                     lib.FcStrFree,
+                                     'FcPatternFormat')
+            font_sequence.append(ffi.string(patfmt).decode())
         return font_sequence
 
     @staticmethod
-- 
2.43.0


From 73193a0c977690dc968235c9bb0be89778c3afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 60/70] fix: keep the FreeType library open while its faces are

Destroying the library destroys its faces; the faces then released
themselves again, and were used in between. A face whose extra reference
could not be taken is no longer released either.
---
 svgpy/freetype.py | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/svgpy/freetype.py b/svgpy/freetype.py
index aa9fdf4..77d3506 100644
--- a/svgpy/freetype.py
+++ b/svgpy/freetype.py
@@ -163,14 +163,27 @@ class FTCharMap(object):
 class FTFace(object):
     """Represents the 'FT_Face' data type."""
 
-    def __init__(self, ft_face, reference=False, _memory_base=None):
+    def __init__(self, ft_face, reference=False, _memory_base=None,
+                 _library=None):
         self._face = ft_face
         self._memory_base = _memory_base  # keep a reference
+        self._library = None
         if reference:
-            self.reference_face()
+            try:
+                self.reference_face()
+            except RuntimeError:
+                self._face = None  # not ours to release
+                raise
+        if _library is None:
+            _library = FreeType.library
+        _library._retain()
+        self._library = _library
 
     def __del__(self):
-        lib.FT_Done_Face(self._face)
+        if self._face is not None:
+            lib.FT_Done_Face(self._face)
+        if self._library is not None:
+            self._library._release()
 
     @property
     def ascender(self):
@@ -362,13 +375,14 @@ class FTFace(object):
     @staticmethod
     def new_face(filename, index=0):
         face = ffi.new('FT_Face *')
-        error = lib.FT_New_Face(FreeType.library.ft_library,
+        library = FreeType.library
+        error = lib.FT_New_Face(library.ft_library,
                                 filename.encode(),
                                 index,
                                 face)
         if error:
             raise RuntimeError('FT_New_Face() failed: ' + hex(error))
-        return FTFace(face[0])
+        return FTFace(face[0], _library=library)
 
     @staticmethod
     def new_memory_face(file_base, file_size=0, face_index=0):
@@ -376,14 +390,15 @@ class FTFace(object):
         if file_size <= 0:
             file_size = len(file_base)
         face = ffi.new('FT_Face *')
-        error = lib.FT_New_Memory_Face(FreeType.library.ft_library,
+        library = FreeType.library
+        error = lib.FT_New_Memory_Face(library.ft_library,
                                        memory_base,
                                        file_size,
                                        face_index,
                                        face)
         if error:
             raise RuntimeError('FT_New_Memory_Face() failed: ' + hex(error))
-        return FTFace(face[0], _memory_base=memory_base)
+        return FTFace(face[0], _memory_base=memory_base, _library=library)
 
     def reference_face(self):
         error = lib.FT_Reference_Face(self._face)
@@ -576,6 +591,7 @@ class FTLibrary(object):
             raise RuntimeError(
                 'Cannot initialize a FreeType library object: ' + hex(error))
         self._library = library[0]
+        self._users = 1  # this object and the faces opened with it
 
         major = ffi.new('FT_Int *')
         minor = ffi.new('FT_Int *')
@@ -585,8 +601,17 @@ class FTLibrary(object):
 
     def __del__(self):
         if self._library is not None:
+            self._release()
+
+    def _release(self):
+        # FT_Done_FreeType() destroys the faces that are still open
+        self._users -= 1
+        if self._users == 0:
             lib.FT_Done_FreeType(self._library)
 
+    def _retain(self):
+        self._users += 1
+
     @property
     def ft_library(self):
         return self._library
-- 
2.43.0


From 94ddac2b2713b37557d78478c79c5afe886108c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 61/70] fix: keep alive what HarfBuzz objects read from

Blobs over Python bytes, faces over blobs or FreeType faces, and fonts over
faces read freed memory when their source was dropped first, and
HBFont.get_face() released a reference it never took.
---
 svgpy/harfbuzz.py | 51 +++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/svgpy/harfbuzz.py b/svgpy/harfbuzz.py
index 51c7101..03673be 100644
--- a/svgpy/harfbuzz.py
+++ b/svgpy/harfbuzz.py
@@ -101,6 +101,7 @@ class HBFace(object):
             hb_face (cdata): A pointer of C type <cdata 'hb_face_t *'>.
         """
         self._face = hb_face
+        self._source = None  # what the native object reads from
         if reference:
             self.reference()
 
@@ -120,8 +121,9 @@ class HBFace(object):
         Returns:
             HBFace: A new HBFace object.
         """
-        face = lib.hb_face_create(blob.hb_blob, index)
-        return HBFace(face)
+        face = HBFace(lib.hb_face_create(blob.hb_blob, index))
+        face._source = blob
+        return face
 
     def get_glyph_count(self):
         glyph_count = lib.hb_face_get_glyph_count(self._face)
@@ -162,8 +164,9 @@ class HBFTFace(HBFace):
         Returns:
             HBFTFace: A new HBFTFace object.
         """
-        hb_face = lib.hb_ft_face_create(face.ft_face, ffi.NULL)
-        return HBFTFace(hb_face)
+        hb_face = HBFTFace(lib.hb_ft_face_create(face.ft_face, ffi.NULL))
+        hb_face._source = face
+        return hb_face
 
 
 class HBFeature(object):
@@ -247,6 +250,8 @@ class HBFont(object):
             hb_font (cdata): A pointer of C type <cdata 'hb_font_t *'>.
         """
         self._font = hb_font
+        self._source = None  # what the native object reads from
+        self._ft_face = None
         if reference:
             self.reference()
 
@@ -267,12 +272,14 @@ class HBFont(object):
         Returns:
             HBFont: A new HBFont object.
         """
-        font = lib.hb_font_create(face.hb_face)
-        return HBFont(font)
+        font = HBFont(lib.hb_font_create(face.hb_face))
+        font._source = face
+        return font
 
     def get_face(self):
-        face = lib.hb_font_get_face(self._font)
-        return HBFace(face)
+        face = HBFace(lib.hb_font_get_face(self._font), reference=True)
+        face._source = self._source
+        return face
 
     def get_glyph(self, unicode, variation_selector=0):
         glyph = ffi.new('hb_codepoint_t *')
@@ -317,6 +324,7 @@ class HBFont(object):
 
     def set_face(self, face):
         lib.hb_font_set_face(self._font, face.hb_face)
+        self._source = face
 
 
 class HBFTFont(HBFont):
@@ -330,12 +338,18 @@ class HBFTFont(HBFont):
         Returns:
             HBFTFont: A new HBFTFont object.
         """
-        hb_font = lib.hb_ft_font_create(face.ft_face, ffi.NULL)
-        return HBFTFont(hb_font)
+        hb_font = HBFTFont(lib.hb_ft_font_create(face.ft_face, ffi.NULL))
+        hb_font._ft_face = face
+        return hb_font
 
     def get_face(self):
         face = lib.hb_ft_font_get_face(self._font)
-        return FTFace(face, reference=True)
+        if self._ft_face is None:
+            return FTFace(face, reference=True)
+        return FTFace(face,
+                      reference=True,
+                      _memory_base=self._ft_face._memory_base,
+                      _library=self._ft_face._library)
 
     def get_load_flags(self):
         load_flags = lib.hb_ft_font_get_load_flags(self._font)
@@ -397,6 +411,7 @@ class HBBlob(object):
             hb_blob (cdata): A pointer of C type <cdata 'hb_blob_t *'>.
         """
         self._blob = hb_blob
+        self._source = None  # what the native object reads from
         if reference:
             self.reference()
 
@@ -412,12 +427,14 @@ class HBBlob(object):
         # bytes
         if length < 0:
             length = len(data)
-        blob = lib.hb_blob_create(data,
-                                  length,
-                                  mode,
-                                  ffi.NULL,
-                                  ffi.NULL)
-        return HBBlob(blob)
+        blob = HBBlob(lib.hb_blob_create(data,
+                                         length,
+                                         mode,
+                                         ffi.NULL,
+                                         ffi.NULL))
+        if mode != HBBlob.HB_MEMORY_MODE_DUPLICATE:
+            blob._source = data
+        return blob
 
     def get_data(self):
         length = ffi.new('unsigned int *')
-- 
2.43.0


From 63907a1cbb98d259b516165a681840a2cdceca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 62/70] fix: views of a font face keep the face open

A glyph slot, size, charmap, outline, bitmap or metrics object read freed
memory once its FTFace was dropped.
---
 svgpy/freetype.py | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/svgpy/freetype.py b/svgpy/freetype.py
index 77d3506..2f468c1 100644
--- a/svgpy/freetype.py
+++ b/svgpy/freetype.py
@@ -44,8 +44,9 @@ def ft_tag_to_string(tag):
 class FTBitmap(object):
     """Represents the 'FT_Bitmap' data type."""
 
-    def __init__(self, ft_bitmap):
+    def __init__(self, ft_bitmap, _face=None):
         self._bitmap = ft_bitmap
+        self._owner = _face  # keep a reference
 
     def __repr__(self):
         return (
@@ -96,8 +97,9 @@ class FTBitmap(object):
 class FTBitmapSize(object):
     """Represents the 'FT_Bitmap_Size' data type."""
 
-    def __init__(self, ft_bitmap_size):
+    def __init__(self, ft_bitmap_size, _face=None):
         self._bitmap_size = ft_bitmap_size
+        self._owner = _face  # keep a reference
 
     def __repr__(self):
         return (
@@ -130,8 +132,9 @@ class FTBitmapSize(object):
 class FTCharMap(object):
     """Represents the 'FT_CharMap' data type."""
 
-    def __init__(self, ft_charmap):
+    def __init__(self, ft_charmap, _face=None):
         self._charmap = ft_charmap
+        self._owner = _face  # keep a reference
 
     def __repr__(self):
         return "('encoding': {}, 'encoding_id': {}, 'platform_id': {})".format(
@@ -193,7 +196,8 @@ class FTFace(object):
     def available_sizes(self):
         bitmap_sizes = list()
         for n in range(0, self.num_fixed_sizes):
-            bitmap_sizes.append(FTBitmapSize(self._face.available_sizes[n]))
+            bitmap_sizes.append(FTBitmapSize(self._face.available_sizes[n],
+                                             self))
         return bitmap_sizes
 
     @property
@@ -207,14 +211,14 @@ class FTFace(object):
 
     @property
     def charmap(self):
-        charmap = FTCharMap(self._face.charmap)
+        charmap = FTCharMap(self._face.charmap, self)
         return charmap
 
     @property
     def charmaps(self):
         charmaps = list()
         for n in range(0, self.num_charmaps):
-            charmaps.append(FTCharMap(self._face.charmaps[n]))
+            charmaps.append(FTCharMap(self._face.charmaps[n], self))
         return charmaps
 
     @property
@@ -240,7 +244,7 @@ class FTFace(object):
 
     @property
     def glyph(self):
-        glyph = FTGlyphSlot(self._face.glyph)
+        glyph = FTGlyphSlot(self._face.glyph, self)
         return glyph
 
     @property
@@ -273,7 +277,7 @@ class FTFace(object):
 
     @property
     def size(self):
-        size = FTSize(self._face.size)
+        size = FTSize(self._face.size, self)
         return size
 
     @property
@@ -454,8 +458,9 @@ class FTFace(object):
 class FTGlyphMetrics(object):
     """Represents the 'FT_Glyph_Metrics' data type."""
 
-    def __init__(self, ft_glyph_metrics):
+    def __init__(self, ft_glyph_metrics, _face=None):
         self._metrics = ft_glyph_metrics
+        self._owner = _face  # keep a reference
 
     def __repr__(self):
         return (
@@ -504,8 +509,9 @@ class FTGlyphMetrics(object):
 class FTGlyphSlot(object):
     """Represents the 'FT_GlyphSlot' data type."""
 
-    def __init__(self, ft_glyph_slot):
+    def __init__(self, ft_glyph_slot, _face=None):
         self._slot = ft_glyph_slot
+        self._owner = _face  # keep a reference
 
     def __repr__(self):
         return (
@@ -527,7 +533,7 @@ class FTGlyphSlot(object):
 
     @property
     def bitmap(self):
-        bitmap = FTBitmap(self._slot.bitmap)
+        bitmap = FTBitmap(self._slot.bitmap, self._owner)
         return bitmap
 
     @property
@@ -556,12 +562,12 @@ class FTGlyphSlot(object):
 
     @property
     def metrics(self):
-        metrics = FTGlyphMetrics(self._slot.metrics)
+        metrics = FTGlyphMetrics(self._slot.metrics, self._owner)
         return metrics
 
     @property
     def outline(self):
-        outline = FTOutline(self._slot.outline)
+        outline = FTOutline(self._slot.outline, self._owner)
         return outline
 
     @property
@@ -764,8 +770,9 @@ class FreeType(object):
 class FTOutline(object):
     """Represents the 'FT_Outline' data type."""
 
-    def __init__(self, ft_outline):
+    def __init__(self, ft_outline, _face=None):
         self._outline = ft_outline
+        self._owner = _face  # keep a reference
 
     def __repr__(self):
         return (
@@ -887,23 +894,25 @@ class FTOutline(object):
 class FTSize(object):
     """Represents the 'FT_Size' data type."""
 
-    def __init__(self, ft_size):
+    def __init__(self, ft_size, _face=None):
         self._size = ft_size
+        self._owner = _face  # keep a reference
 
     def __repr__(self):
         return "('metrics': {})".format(repr(self.metrics))
 
     @property
     def metrics(self):
-        metrics = FTSizeMetrics(self._size.metrics)
+        metrics = FTSizeMetrics(self._size.metrics, self._owner)
         return metrics
 
 
 class FTSizeMetrics(object):
     """Represents the 'FT_Size_Metrics' data type."""
 
-    def __init__(self, ft_size_metrics):
+    def __init__(self, ft_size_metrics, _face=None):
         self._metrics = ft_size_metrics
+        self._owner = _face  # keep a reference
 
     def __repr__(self):
         return (
-- 
2.43.0


From b16941d2ffd2a420dce0af79665bb5222ae8d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 63/70] fix: ICU objects that could not be opened raise at once

A UBreakIterator or UBiDi over NULL crashed on first use, and a rejected
set_text() dropped the text the native iterator still reads.
---
 svgpy/icu.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/svgpy/icu.py b/svgpy/icu.py
index 97e0d80..548dd14 100644
--- a/svgpy/icu.py
+++ b/svgpy/icu.py
@@ -523,8 +523,10 @@ class UBiDi(object):
 
     def __init__(self):
         self._status = ffi.new('UErrorCode *')
-        self._bidi = ffi.gc(ubidi_open(),
-                            ubidi_close)
+        bidi = ubidi_open()
+        if bidi == ffi.NULL:
+            raise MemoryError('ubidi_open() failed.')
+        self._bidi = ffi.gc(bidi, ubidi_close)
         self._source = None
 
     @property
@@ -658,9 +660,11 @@ class UBreakIterator(Iterator, Reversible):
             buf = ffi.new('UChar[]', text)
             buf_length = len(buf) - 1
             self._source = buf
-        self._bi = ffi.gc(
-            ubrk_open(break_type, where, buf, buf_length, self._status),
-            ubrk_close)
+        bi = ubrk_open(break_type, where, buf, buf_length, self._status)
+        if bi == ffi.NULL:
+            raise RuntimeError('ubrk_open() failed: '
+                               + u_error_name(self._status[0]))
+        self._bi = ffi.gc(bi, ubrk_close)
 
     def __iter__(self):
         self.first()
@@ -729,9 +733,10 @@ class UBreakIterator(Iterator, Reversible):
     def set_text(self, text):
         buf = ffi.new('UChar[]', text)
         buf_length = len(buf) - 1
-        self._source = buf
         self._status[0] = 0
         ubrk_set_text(self._bi, buf, buf_length, self._status)
+        if u_success(self._status[0]):
+            self._source = buf
 
 
 class UErrorCode(object):
-- 
2.43.0


From f483af6e72bc60682a0dfcc93158e28901f98e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 64/70] fix: blob memory modes have the values HarfBuzz gives
 them

HB_MEMORY_MODE_DUPLICATE was the value of READONLY, so a blob asked to copy
its data did not, and read it after it was freed.
---
 svgpy/harfbuzz.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/svgpy/harfbuzz.py b/svgpy/harfbuzz.py
index 03673be..fb20fb9 100644
--- a/svgpy/harfbuzz.py
+++ b/svgpy/harfbuzz.py
@@ -399,10 +399,10 @@ class HBOTFont(HBFont):
 class HBBlob(object):
     """Represents the 'hb_blob_t' data type."""
 
-    HB_MEMORY_MODE_DUPLICATE = 1
-    HB_MEMORY_MODE_READONLY = 2
-    HB_MEMORY_MODE_WRITABLE = 3
-    HB_MEMORY_MODE_READONLY_MAY_MAKE_WRITABLE = 4
+    HB_MEMORY_MODE_DUPLICATE = 0
+    HB_MEMORY_MODE_READONLY = 1
+    HB_MEMORY_MODE_WRITABLE = 2
+    HB_MEMORY_MODE_READONLY_MAY_MAKE_WRITABLE = 3
 
     def __init__(self, hb_blob, reference=False):
         """Constructs a HBBlob object.
@@ -423,7 +423,7 @@ class HBBlob(object):
         return self._blob
 
     @staticmethod
-    def create(data, length=-1, mode=2):
+    def create(data, length=-1, mode=1):
         # bytes
         if length < 0:
             length = len(data)
-- 
2.43.0


From e1d6e1a8e6025b0a915dd0347bc3f3ff329778c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 65/70] fix: viewport-relative lengths of an element outside of
 SVG

SVGLength.value() raised AttributeError for an HTML element; such lengths
refer to the initial containing block.
---
 svgpy/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/svgpy/core.py b/svgpy/core.py
index bafb72a..5fca8cd 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1408,6 +1408,16 @@ class SVGLength(object):
             if self._context is None:
                 vw = 100
                 vh = 100
+            elif not hasattr(self._context, 'get_view_box'):
+                # not an SVG element: the initial containing block
+                doc = self._context.owner_document
+                win = doc.default_view if doc is not None else None
+                if win is None:
+                    vw = Screen.DEFAULT_SCREEN_WIDTH
+                    vh = Screen.DEFAULT_SCREEN_HEIGHT
+                else:
+                    vw = win.inner_width
+                    vh = win.inner_height
             else:
                 view_box = self._context.get_view_box()
                 if view_box is not None:
-- 
2.43.0


From 629fd8ab8824f49c99d29d4f3086211e532362fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 66/70] fix: media queries in a document whose root is not an
 SVG element

MediaQueryList.matches raised AttributeError.
---
 svgpy/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 2df79d2..85cb3a4 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -743,7 +743,7 @@ class MediaQueryList(object):
         doc = self._browsing_context.document
         win = self._browsing_context.window
         context = doc.document_element
-        if context is not None:
+        if hasattr(context, 'get_viewport_size'):
             _, _, vpw, vph = context.get_viewport_size()
             width = vpw.value()
             height = vph.value()
-- 
2.43.0


From 4ec16febac41fe2685ac987d8e4d7509da643798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 67/70] fix: removing a node beside the document element is not
 routed through the document

---
 svgpy/window.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 85cb3a4..05794de 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -630,8 +630,10 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         if node == root:
             self._document_element = None
             return
-        root.append(node)  # move
-        root.remove(node)
+        # never through the document: this can be interrupted
+        parent = root.makeelement(root.tag)
+        parent.append(node)  # move
+        parent.remove(node)
 
     def remove_child(self, node):
         """Removes a child node from this node.
-- 
2.43.0


From a449f21ffc0fa2923334c45c6a12d75f795b02f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:46 +0000
Subject: [PATCH 68/70] fix: text layout of a text element whose first child
 has no text

---
 svgpy/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index 5ef6935..8ad705d 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -108,7 +108,7 @@ class SVGTextContentElement(SVGGraphicsElement):
                 child_chars_info, out_text = \
                     SVGTextContentElement._get_descendant_chars(
                         child, style_map, prev_text, first, **kwargs)
-                if len(out_text) > 0:
+                if len(child_chars_info) > 0:
                     chars_info += child_chars_info
                     prev_text = out_text
                     first = False
-- 
2.43.0


From 3149731e56ef577c9687d7da71a2fe70ea73af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:46 +0000
Subject: [PATCH 69/70] fix: text layout of a text element with comments or
 processing instructions

---
 svgpy/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index 8ad705d..16cf710 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -112,7 +112,9 @@ class SVGTextContentElement(SVGGraphicsElement):
                     chars_info += child_chars_info
                     prev_text = out_text
                     first = False
-            if (child.local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS
+            if ((child.node_type != Node.ELEMENT_NODE
+                 or child.local_name
+                    in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS)
                     and child.tail is not None):
                 out_text = CSSUtils.normalize_text_content(
                     child,
-- 
2.43.0


From b06526f2340c715229984be2b7e2e79570f3b34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:38 +0000
Subject: [PATCH 70/70] fix: text layout mixes up the styles of elements whose
 proxies are gone

---
 svgpy/text.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index 16cf710..0cf86ee 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -79,10 +79,10 @@ class SVGTextContentElement(SVGGraphicsElement):
         if style_map is None:
             style_map = dict()
         key = hash(element)
-        style = style_map.get(key)
+        style = style_map.get(element)
         if style is None:
             style = element.get_computed_style()
-            style_map[key] = copy.deepcopy(style)
+            style_map[element] = copy.deepcopy(style)
         if element.text is not None:
             out_text = CSSUtils.normalize_text_content(
                 element,
@@ -175,7 +175,7 @@ class SVGTextContentElement(SVGGraphicsElement):
 
                 style_map = dict()
                 for info in iter(chars_info):
-                    key = info[SVGTextContentElement._CHARS_ID]
+                    key = info[SVGTextContentElement._CHARS_ELEMENT]
                     style = info[SVGTextContentElement._CHARS_STYLE]
                     style_map[key] = copy.deepcopy(style)
 
@@ -199,7 +199,7 @@ class SVGTextContentElement(SVGGraphicsElement):
 
         Arguments:
             element (SVGElement):
-            style_map (dict):
+            style_map (dict): Computed styles, keyed by elements.
             out_text (str): A text for rendering.
             start_x (float):
             start_y (float):
@@ -216,10 +216,10 @@ class SVGTextContentElement(SVGGraphicsElement):
                 if (_element.node_type == Node.ELEMENT_NODE
                         and _element.istext()
                         and _element.isdisplay()):
-                    _style = _style_map.get(hash(_element))
+                    _style = _style_map.get(_element)
                     if _style is None:
                         _style = _element.get_computed_style()
-                        _style_map[hash(_element)] = _style
+                        _style_map[_element] = _style
                     _value = _style.get(_key)
                     if _value is not None:
                         return _value
@@ -234,7 +234,7 @@ class SVGTextContentElement(SVGGraphicsElement):
         rotate_list = _get_inherited_attribute(
             element, style_map, 'rotate', [])
 
-        style = style_map.get(hash(element))  # computed style
+        style = style_map.get(element)  # computed style
         assert style is not None
         font = Font(element)
         face = font.face
-- 
2.43.0

