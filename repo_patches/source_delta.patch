From b869fc3c43534ce1fa6aa8a39881547eacd59dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 01/34] fix: keep the number of blank lines before the first
 block nested in a control block or hypertag

The top margin of the nested block was marked as an outline node itself, which added one more empty line.
---
 src/hypertag/core/ast.py | 7 +++++--
 src/hypertag/core/dom.py | 8 ++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index d4a1419..9fd4e28 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -456,7 +456,7 @@ class NODES(object):
             dedent = (self.modifier == '<')
             
             if not append:
-                block[0].set_outline()            # mark the 1st node of the block as being "outline" not "inline"
+                block.set_outline()               # mark the 1st node of the block as being "outline" not "inline"
             if dedent:
                 block.set_indent('')
             return DOM(margin, block)
@@ -622,7 +622,7 @@ class NODES(object):
             output.set_indent(state.indentation)
             # return output
             
-            if output: output[0].set_outline(False)         # node's `outline` will be set for the root node up in xblock.translate()
+            output.set_outline(False)                       # node's `outline` will be set for the root node up in xblock.translate()
             return DOM.node(output, state.indentation, tag = self.native, kwattrs = dom_attrs)
 
         def _append_attrs(self, body, attrs, kwattrs, state, caller):
@@ -1800,6 +1800,9 @@ class NODES(object):
         def setup(self):
             self.value = self.text()[:-1]
 
+        def translate(self, state):
+            return DOM.text(self.value, margin = True) if self.value else DOM()
+
     class xescape(static):
         def setup(self):
             escape = self.text()
diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index 3073649..eefd0ed 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -133,6 +133,13 @@ class DOM:
         for n in self.nodes:
             n.set_indent(indent)
             
+    def set_outline(self, outline = True):
+        """Set `outline` of the 1st node; a top margin that preceeds this node is left unchanged, as it's not a block in itself."""
+        for n in self.nodes:
+            if n.margin: continue
+            n.set_outline(outline)
+            break
+
     def render(self):
         return ''.join(node.render() for node in self.nodes)
 
@@ -277,6 +284,7 @@ class DOM:
         
         body    = None      # DOM (possibly empty) containing child nodes of a non-terminal node; None in DOM.Text
         
+        margin  = False     # True in a text node that represents a top margin (empty lines) of a subsequent sibling node
         outline = False     # True/False denotes an "outline" block or an "inline" node; adds a leading newline during rendering if True
         indent  = None      # indentation string of this block: absolute (when starts with \n) or relative
                             # to its parent (otherwise); None means this is an inline (headline) block, no indentation
-- 
2.43.0


From 0fd575c536d0d901cd2a3abd630adc854af3bbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:34 +0000
Subject: [PATCH 02/34] fix: analyse the else clause of a 'for' block and do
 not use it as the body of a loop without body

---
 src/hypertag/core/ast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 9fd4e28..a12dd60 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -938,8 +938,8 @@ class NODES(object):
         
         def setup(self):
             self.targets, self.expr = self.children[:2]
-            self.body = self.children[2] if len(self.children) >= 3 else None
             self.else_ = self.children[-1] if self.children[-1].type == 'clause_else' else None
+            self.body = self.children[2] if len(self.children) >= (4 if self.else_ else 3) else None
             assert isinstance(self.expr, NODES.expression)
             assert self.targets.type == 'targets'
             # assert self.targets.type == 'var', 'Support for multiple targets in <for> not yet implemented'
@@ -948,6 +948,7 @@ class NODES(object):
             self.expr.analyse(ctx)
             self.targets.analyse(ctx)
             if self.body: self.body.analyse(ctx)
+            if self.else_: self.else_.analyse(ctx)
 
         def translate(self, state):
             out = []
-- 
2.43.0


From 63c1e821d93ebdbbcde94a75dce17362cb3f2751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:12 +0000
Subject: [PATCH 03/34] fix: an assignment inside a control block is visible to
 sibling blocks also when it overrides a variable of an outer namespace

Values of local symbols are no longer carried over to the next execution of a tagged block or hypertag.
---
 src/hypertag/core/ast.py     | 16 +++++++++-------
 src/hypertag/core/structs.py | 17 +++++++++++++++--
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index a12dd60..9d7392f 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -529,8 +529,9 @@ class NODES(object):
             return DOM(*body)
 
     class xblock_struct(node):
-        tags = None         # <tags_expand> node
-        body = None         # <body_struct> node
+        tags  = None        # <tags_expand> node
+        body  = None        # <body_struct> node
+        slots = None        # list of slots of local symbols declared in the body
         
         def setup(self):
             self.tags = self.children[0]
@@ -541,10 +542,12 @@ class NODES(object):
             ctx.regular_depth += 1
             position = ctx.position()
             for c in self.children: c.analyse(ctx)
+            self.slots = ctx.slots(position)
             ctx.reset(position)             # tagged node defines a local namespace, hence need to drop symbols defined inside
             ctx.regular_depth -= 1
             
         def translate(self, state):
+            state.clear(self.slots)         # drop values of local symbols left by a previous execution of this block
             body = self.body.translate(state)
             body = self.tags.apply_tags(state, body)
             body.set_indent(state.indentation)
@@ -559,6 +562,7 @@ class NODES(object):
         attr_regul = None           # all regular (non-body) attributes, as a list of children
         body       = None
         slot       = None
+        slots      = None           # list of slots of local symbols: attributes and symbols declared in the body
         native     = None           # a Native tag instance that will be inserted into all DOMs
         
         def setup(self):
@@ -600,6 +604,7 @@ class NODES(object):
 
             self.body.analyse(ctx)                  # analyse the formal body
 
+            self.slots = ctx.slots(position)
             ctx.reset(position)
             ctx.hypertag_depth -= 1
             ctx.regular_depth  -= 1
@@ -617,6 +622,7 @@ class NODES(object):
             Translate the formal self.body in a given `state`, insert the actual `body` wherever necessary,
             and return as a DOM (not a string!) for possible further manipulation in other hypertags.
             """
+            state.clear(self.slots)                                                     # drop values left by a previous expansion
             dom_attrs = self._append_attrs(body, attrs, kwattrs, state, caller)         # extend `state` with actual values of tag attributes
             output = self.body.translate(state)
             output.set_indent(state.indentation)
@@ -797,11 +803,7 @@ class NODES(object):
             # new_symbols = []
             
             for branch in self.children:
-                position = ctx.position()
-                branch.analyse(ctx)
-                symbols = ctx.asdict(position)          # top-level symbols declared in this branch...
-                ctx.reset(position)
-                ctx.pushnew(symbols)                    # ...only new symbols (not declared in a previous branch) are added
+                branch.analyse(ctx)                     # symbols declared in a branch are left in `ctx` for subsequent branches and siblings
                 
                 # local_slots.append(symbols)
                 # new_symbols += symbols.keys()
diff --git a/src/hypertag/core/structs.py b/src/hypertag/core/structs.py
index 414101e..20aca9b 100644
--- a/src/hypertag/core/structs.py
+++ b/src/hypertag/core/structs.py
@@ -207,6 +207,10 @@ class Context(MultiDict):
     in_prolog = True        # True inside the document prolog, i.e., from the document beginning till the first block
                             # different than a context specification or a comment
     
+    def slots(self, position):
+        """List of slots of all symbols that have been declared since a given `position`."""
+        return [slot for _, slot, _ in self.stack[position:]]
+
     def add_refdepth(self, d, symbol = None):
         """Update self.ref_depth with the depth of one more definition of a variable/hypertag.
         'symbol': optional name of the variable/hypertag being referenced, for debugging.
@@ -376,6 +380,10 @@ class State:
     def __setitem__(self, slot, value):
         #assert slot not in self.values     # this assert is not true inside "for" loops
         self.values[slot] = value
+
+    def clear(self, slots):
+        """Make given `slots` uninitialized."""
+        for slot in slots: self.values.pop(slot, None)
         
     def copy(self):
         dup = State()
@@ -421,6 +429,8 @@ class Slot:
     symbol  = None
     
     primary = None      # 1st definition of this symbol, if self represents a re-assignment (override)
+    outer   = None      # slot of the same symbol in an outer namespace, if any; provides the value when self is uninitialized, that is,
+                        # when self was declared in a branch of a control block which has not been executed
     depth   = None      # ctx.regular_depth of this slot, for correct identification of re-assignments that occur
                         # at the same depth (in the same namespace)
     
@@ -431,6 +441,7 @@ class Slot:
         self.depth  = ctx.regular_depth
 
         link = ctx.get(symbol)
+        self.outer = link if isinstance(link, Slot) else None
         
         from .ast import NODES
         assert link is None or isinstance(link, (Slot, NODES.attribute, NODES.variable)), 'unrecognized type of slot: %s' % type(link)
@@ -444,8 +455,10 @@ class Slot:
         state[self.primary or self] = value
         
     def get(self, state):
-        """Raises KeyError if this slot is uninitialized in `state`."""
-        return state[self.primary or self]
+        """Raises KeyError if this slot (and all slots it overrides) is uninitialized in `state`."""
+        slot = self.primary or self
+        while slot.outer is not None and slot not in state: slot = slot.outer
+        return state[slot]
     
 
 class ValueSlot(Slot):
-- 
2.43.0


From 80b33864b2f585671d37be3ebf3500d6323cd994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:59 +0000
Subject: [PATCH 04/34] fix: evaluate chained comparisons and the power
 operator like Python

---
 src/hypertag/core/ast.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 9d7392f..aa971e0 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1580,7 +1580,15 @@ class NODES(object):
             return head, tail
     
     class xpow_expr(chain_expression):
-        """chain of power operators: ** """
+        """Chain of power operators: ** ... Right-associative, like in Python."""
+        
+        def evaluate(self, state):
+            values = [expr.evaluate(state) for expr in self.children[0::2]]
+            ops    = self.children[1::2]
+            res    = values.pop()
+            for op, val in zip(reversed(ops), reversed(values)):
+                res = op.apply(val, res)
+            return res
     class xterm(chain_expression):
         """chain of multiplicative operators: * / // %"""
     class xshift_expr(chain_expression):
@@ -1650,9 +1658,21 @@ class NODES(object):
             
             
     class xcomparison(chain_expression):
-        "chain of comparison operators: < > == >= <= != in is, not in, is not"
+        """
+        Chain of comparison operators: < > == >= <= != in is, not in, is not.
+        Like in Python, x1 OP1 x2 OP2 x3 ... is equivalent to: (x1 OP1 x2) and (x2 OP2 x3) and ..., every item being evaluated at most once.
+        """
         raise_null = False
         
+        def evaluate(self, state):
+            left, tail = self._prepare(state)
+            for op, expr in zip(tail[0::2], tail[1::2]):
+                right = expr.evaluate(state)
+                res = op.apply(left, right)
+                if not res: break
+                left = right
+            return res
+        
     class xnot_test(expression):
         """not not not ..."""
         def evaluate(self, state):
-- 
2.43.0


From cb7cd7b45d2b3dd644174bebd4f8d4fa1af1571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:59 +0000
Subject: [PATCH 05/34] fix: apply the transform of DOM.alter() before nested
 calls in preorder and after them in postorder, as documented

---
 src/hypertag/core/dom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index eefd0ed..de0d3bb 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -181,13 +181,13 @@ class DOM:
         the input node itself can also be returned.
         The alter() function returns self.
         """
-        if order == 'preorder':
+        if order == 'postorder':
             for node in self.nodes: node.alter(transform, skip, order)
         
         new_nodes  = itertools.chain(*(transform(node) for node in self.nodes))
         self.nodes = self._flatten(new_nodes)
         
-        if order == 'postorder':
+        if order == 'preorder':
             for node in self.nodes: node.alter(transform, skip, order)
 
         return self
-- 
2.43.0


From 4803180efdaed3b9949b63017f60dbabfcda0304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:59 +0000
Subject: [PATCH 06/34] fix: select() and skip() by attribute handle nodes
 without attributes

---
 src/hypertag/core/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index de0d3bb..728b92a 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -260,7 +260,7 @@ class DOM:
         if name is not None and (node.tag is None or node.tag.name != name): return False
         
         for a, v in attrs.items():
-            if a not in node.kwattrs: return False
+            if not node.kwattrs or a not in node.kwattrs: return False
             if v is not DOM.ATTR_DEFINED and node.kwattrs[a] != v: return False
 
         return True
-- 
2.43.0


From abd3767202e907f74cec223466e188395e61f470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:07 +0000
Subject: [PATCH 07/34] fix: a DOM embedded several times keeps the right
 layout in every place

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index aa971e0..4ee7880 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -515,7 +515,7 @@ class NODES(object):
             
         def translate(self, state):
             body = self.expr.evaluate(state)
-            body = self._as_sequence(body)
+            body = self._as_sequence(body).copy()               # the same nodes may be embedded in many places, with different layout in each
             body.set_indent(state.indentation)                  # set indentation of the fragment to be inserted
             return body
         
-- 
2.43.0


From d866396e832035d489c912173e7970154ef50eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:04 +0000
Subject: [PATCH 08/34] fix: preserve whitespace of values embedded in text
 blocks; only spaces and tabs are indentation

---
 src/hypertag/core/ast.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 4ee7880..571b229 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -223,7 +223,7 @@ class Grammar(Parsimonious):
         for line in script:
             linenum += 1
             line = line.rstrip()                    # trailing whitespace removed
-            tail = line.lstrip()
+            tail = line.lstrip(' \t')               # other whitespace characters are not treated as indentation
             indent = line[: len(line) - len(tail)]
             
             if not tail and linenum <= total:       # only whitespace in line? add to the `margin`
@@ -472,27 +472,32 @@ class NODES(object):
             indent = state.indentation
             state.indentation = ''
             
-            lead = self.column          # horizontal position where the block's first line begins in the script
-            try:
-                body = self._render_all(self.children, state)
-                # if body.startswith('\n'):
-                #     output = body[1:]                   # no headline? drop the leading newline
-                # else:
-                output = ' ' * lead + body          # in the headline, spaces are prepended to replace leading tag(s) and a marker character /|!
+            lead  = self.column             # horizontal position where the block's first line begins in the script
+            lines = [' ' * lead]            # rendered lines; in the headline, spaces are prepended to replace leading tag(s) and a marker character /|!
+            outer = [' ' * lead]            # indentation of each line in the script; whitespace inside embedded values is NOT included,
+            try:                            # so it's preserved in the output
+                for child in self.children:
+                    text = child.render(state)
+                    if isinstance(child, NODES.line):
+                        source = child.text()
+                        lines[-1] += text
+                        outer[-1] += state.indentation + source[:len(source) - len(source.lstrip(' \t'))] + '.'
+                    else:
+                        lines += [''] * len(text)
+                        outer += [''] * len(text)
             finally:
                 state.indentation = indent
 
-            sub_indent = get_indent(output)
+            sub_indent = get_indent('\n'.join(outer))
             sub_indent = sub_indent[:lead+1]        # max 1 initial space/tab after the lead is dropped; remaining sub-indentation is preserved in `output`
-            output = del_indent(output, sub_indent)
-            # print('sub_indent: "{sub_indent}"')
-
+            size = len(sub_indent)
+            
             # if tail lines have shorter indent than the headline, drop all the lead + 1 space (gap)
-            if len(sub_indent) < lead:
-                drop = lead - len(sub_indent)
-                if output[drop:drop+1] == ' ': drop += 1
-                output = output[drop:]
-                
+            head = lead if size < lead else size
+            if size < lead and outer[0][head:head+1] in (' ', '\t'): head += 1
+            
+            output = '\n'.join([lines[0][head:]] + [line[size:] for line in lines[1:]])
+
             # # drop the 1st line (headline) if empty
             # if output.split('\n', 1)[0].strip() == '':
             #     output =
-- 
2.43.0


From 585cc041f9d806809baacbca56a622986d01d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:37 +0000
Subject: [PATCH 09/34] fix: import lookup falls through missing packages,
 keeps one module per script and handles relative script file names

---
 src/hypertag/core/runtime.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 17396f6..f5bf79d 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -228,7 +228,7 @@ class HyLoader(Loader):
         
         # whenever possible, python package path (python_path) of the module is inferred, so that its `package` can be set
         location = python_path = None
-        ref_root = os.path.dirname(referrer.filename) if referrer.filename else None
+        ref_root = os.path.dirname(os.path.abspath(referrer.filename)) if referrer.filename else None
         
         # relative import path is always resolved relative to the referrer's folder
         if path[:1] == '.':
@@ -248,15 +248,20 @@ class HyLoader(Loader):
             # 2. try the Python's standard import mechanism (importlib); must be applied to the parent package, not the script itself
             if not location and '.' in path:
                 package_name, filename = path.rsplit('.', 1)
-                pkg = importlib.import_module(package_name)                 # package_name is an absolute path, so referrer is not needed here
-                package_path = pkg.__file__
-                if package_path.endswith('.py'):
-                    package_path = os.path.dirname(package_path)            # truncate /__init__.py part of a package file path
+                try:
+                    pkg = importlib.import_module(package_name)             # package_name is an absolute path, so referrer is not needed here
+                    package_path = getattr(pkg, '__file__', None)           # no file path in namespace packages and built-in modules
+                except ModuleNotFoundError:
+                    package_path = None
                 
-                location = package_path + PATH_SEP + filename + self.SCRIPT_EXTENSION
-                python_path = package_path + '.' + filename
-                if location and not os.path.exists(location):
-                    location = python_path = None
+                if package_path:
+                    if package_path.endswith('.py'):
+                        package_path = os.path.dirname(package_path)        # truncate /__init__.py part of a package file path
+                    
+                    location = package_path + PATH_SEP + filename + self.SCRIPT_EXTENSION
+                    python_path = package_name + '.' + filename
+                    if location and not os.path.exists(location):
+                        location = python_path = None
                 
             # 3. try using the process' current folder as a root
             if not location:
@@ -270,6 +275,8 @@ class HyLoader(Loader):
                 location = self._join_path(ref_root, '.' + path)
                 python_path = self._make_absolute('.' + path, referrer)
 
+        if location in self.cache: return self.cache[location]
+        
         if not location or not os.path.exists(location):
             return None
         
-- 
2.43.0


From 4a05389dc5006b158989bd184367b25eea1ae379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:46 +0000
Subject: [PATCH 10/34] fix: unpack a single target with a trailing comma and
 check the number of values before assigning

---
 src/hypertag/core/ast.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 571b229..6ae1402 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -6,6 +6,7 @@
 from __future__ import unicode_literals
 
 import sys, re, codecs, operator
+from itertools import islice
 from collections import OrderedDict
 from six import reraise, text_type
 
@@ -1043,7 +1044,11 @@ class NODES(object):
     class xtargets(node):
         def is_augmented(self):
             """True if self represents multiple targets (not a plain variable) to assign to."""
-            return len(self.children) >= 2 or self.children[0].type != 'var_def'
+            return self.is_sequence() or self.children[0].type != 'var_def'
+        
+        def is_sequence(self):
+            """True if the value must be unpacked: there was at least one comma, possibly a trailing one after a single target."""
+            return len(self.children) >= 2 or self.text().endswith(',')
         
         def set_inplace(self):
             self.children[0].set_inplace()
@@ -1055,17 +1060,19 @@ class NODES(object):
         def assign(self, state, value):
             """Unpack `value` and assign to child targets."""
             N = len(self.children)
-            if N == 1:
+            if not self.is_sequence():
                 self.children[0].assign(state, value)
                 return
             
-            # unpack and assign to multiple child targets
-            i = 0
-            for i, v in enumerate(value):               # raises TypeError if `value` is not iterable
-                if i >= N: raise ValueErrorEx("too many values to unpack (expected %s)" % N, self)
-                self.children[i].assign(state, v)
-            if i+1 < N:
-                raise ValueErrorEx("not enough values to unpack (expected %s, got %s)" % (N, i+1), self)
+            # unpack and assign to child targets
+            values = list(islice(value, N + 1))         # raises TypeError if `value` is not iterable
+            if len(values) > N:
+                raise ValueErrorEx("too many values to unpack (expected %s)" % N, self)
+            if len(values) < N:
+                raise ValueErrorEx("not enough values to unpack (expected %s, got %s)" % (N, len(values)), self)
+            
+            for target, v in zip(self.children, values):
+                target.assign(state, v)
             
         def evaluate(self, state):
             assert len(self.children) == 1
-- 
2.43.0


From 7698663757e0114e562a38690ca0761d5e112bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:20 +0000
Subject: [PATCH 11/34] fix: names that begin with True, False or None can be
 used in expressions

---
 src/hypertag/core/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 06f2e19..23df444 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -266,8 +266,8 @@ literal          =  number / string / boolean / none
 number_signed    =  ~"[+-]?" number
 number           =  ~"((\.\d+)|(\d+(\.\d*)?))([eE][+-]?\d+)?"      # the leading +- is added during expression construction (<neg>)
 #string           =  ~"'[^']*'" / ~'"[^"]*"'         # '...' or "..." string; no escaping of ' and " inside!
-boolean          =  'True' / 'False'
-none             =  'None'
+boolean          =  ~"(True|False)\\b"
+none             =  ~"None\\b"
 
 string           =  string_format / string_raw
 string_raw       =  ~"r'[^']*'" / ~'r"[^"]*"'         # '...' or "..." string; must not contain ' or " inside (no escaping available)
-- 
2.43.0


From dd369162008992b7d2e3e93b123a7d019cc0b3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:59 +0000
Subject: [PATCH 12/34] fix: do not lose a TypeError raised inside a block
 (PyPy replaces it when a generator is unpacked)

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 6ae1402..853b153 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -450,7 +450,7 @@ class NODES(object):
             super(NODES.xblock, self).analyse(ctx)
 
         def translate(self, state):
-            margin, block = (c.translate(state) for c in self.children)
+            margin, block = [c.translate(state) for c in self.children]
             if not block: return margin
             
             append = (self.modifier == '...')
-- 
2.43.0


From 44fec028c3b25e969028bffad50da24492e0a1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 13/34] fix: a top-level assignment to a built-in name is an
 output symbol of the script

---
 src/hypertag/core/ast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 853b153..3717bf5 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -395,6 +395,7 @@ class NODES(object):
         
         def analyse(self, ctx):
             self.slots_in = {symbol: ValueSlot(symbol, value, ctx) for symbol, value in self.globals.items()}
+            for slot in self.slots_in.values(): slot.depth = -1         # assignment to a predefined symbol creates a new top-level symbol
             # ctx.pushall(self.slots_in)   -- not needed because each symbol is pushed to `ctx` during ValueSlot() creation
             position = ctx.position()
             for c in self.children: c.analyse(ctx)
-- 
2.43.0


From 33ef2d1af39fd2a9b1535830627007adb9fa7c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:13 +0000
Subject: [PATCH 14/34] fix: an 'else' clause without a body renders nothing
 instead of failing

---
 src/hypertag/core/ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 3717bf5..3257357 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -913,8 +913,8 @@ class NODES(object):
         
     class xclause_else(node):
         def translate(self, state):
-            assert len(self.children) == 1
-            return self.children[0].translate(state)
+            assert len(self.children) <= 1
+            return self.children[0].translate(state) if self.children else DOM()        # body can be missing
         
     class xblock_while(control_block):
         # def _analyse_branches(self, ctx):
-- 
2.43.0


From 4217d5185cac000bc846c84b59ba385d55bd9782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:31 +0000
Subject: [PATCH 15/34] fix: do not test the truth value of the last comparison
 in a chain (it need not have one, e.g., an array)

---
 src/hypertag/core/ast.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 3257357..ed36b8a 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1679,10 +1679,11 @@ class NODES(object):
         
         def evaluate(self, state):
             left, tail = self._prepare(state)
-            for op, expr in zip(tail[0::2], tail[1::2]):
-                right = expr.evaluate(state)
-                res = op.apply(left, right)
-                if not res: break
+            last = len(tail) - 2
+            for i in range(0, len(tail), 2):
+                right = tail[i+1].evaluate(state)
+                res = tail[i].apply(left, right)
+                if i == last or not res: break                  # truth value of the last result is not tested, like in Python
                 left = right
             return res
         
-- 
2.43.0


From 25d6afec60553722c722768ab0042dbead83162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:41 +0000
Subject: [PATCH 16/34] fix: a double 'not' gives a truth value, like in Python

---
 src/hypertag/core/ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index ed36b8a..5371f62 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1691,9 +1691,9 @@ class NODES(object):
         """not not not ..."""
         def evaluate(self, state):
             assert len(self.children) >= 2 and all(c.type == 'not' for c in self.children[:-1])
-            neg = not (len(self.children) % 2)              # check parity of 'children' to see if negation appears even or odd no. of times
             val = self.children[-1].evaluate(state)
-            return not val if neg else val
+            for _ in self.children[:-1]: val = not val
+            return val
     
     class xand_test(simple_chain_expression):
         "chain of logical 'and' operators. Lazy evaluation: if false item is encountered, it's returned without evaluation of subsequent items"
-- 
2.43.0


From 5d5cedfdde49b4ecb5e13e855d5ee37959d7f2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:29 +0000
Subject: [PATCH 17/34] fix: do not test the truth value of an expression that
 has no qualifier

---
 src/hypertag/core/ast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 5371f62..baf2ae5 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1307,6 +1307,8 @@ class NODES(object):
             """Special variant of evaluate() to be used in these expression nodes that may have a not-None qualifier.
                They should call this method in evaluate() and implement _eval_inner_qualified().
             """
+            if not self.qualifier:                  # without a qualifier, the truth value is not tested (it need not exist, like in arrays)
+                return self._eval_inner_qualified(state)
             try:
                 val = self._eval_inner_qualified(state)
             except Exception as ex:
-- 
2.43.0


From b198cf99a9a07262faa2af9891887861f9e12f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:58 +0000
Subject: [PATCH 18/34] fix: a chain of tags may follow a hypertag that embeds
 its body at another indentation (AssertionError before)

---
 src/hypertag/core/ast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index baf2ae5..f42962e 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1133,6 +1133,7 @@ class NODES(object):
             """Wrap up the translated `body` (a DOM, not AST) with subsequent tags processed (expanded) in reverse order."""
             for tag in reversed(self.children):
                 body = tag.translate_tag(state, body)
+                body.set_indent(state.indentation)          # inner tag may be moved elsewhere by a hypertag, hence its body must have relative indentation
             return body
         
     class xtag_expand(node):
-- 
2.43.0


From 264ebee01328c973110d955adbb855425ac4cb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:37 +0000
Subject: [PATCH 19/34] fix: local variables of a hypertag survive a recursive
 expansion of the same hypertag

---
 src/hypertag/core/ast.py     | 13 ++++++++++---
 src/hypertag/core/structs.py |  2 ++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index f42962e..cd9b712 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -629,9 +629,16 @@ class NODES(object):
             Translate the formal self.body in a given `state`, insert the actual `body` wherever necessary,
             and return as a DOM (not a string!) for possible further manipulation in other hypertags.
             """
-            state.clear(self.slots)                                                     # drop values left by a previous expansion
-            dom_attrs = self._append_attrs(body, attrs, kwattrs, state, caller)         # extend `state` with actual values of tag attributes
-            output = self.body.translate(state)
+            recursive = self in state.expanding             # expansion inside another expansion of the same hypertag?
+            if recursive: values = state.values.copy()      # ... its local variables must be restored after the inner expansion
+            else: state.expanding.add(self)
+            try:
+                state.clear(self.slots)                                                     # drop values left by a previous expansion
+                dom_attrs = self._append_attrs(body, attrs, kwattrs, state, caller)         # extend `state` with actual values of tag attributes
+                output = self.body.translate(state)
+            finally:
+                if recursive: state.values = values
+                else: state.expanding.discard(self)
             output.set_indent(state.indentation)
             # return output
             
diff --git a/src/hypertag/core/structs.py b/src/hypertag/core/structs.py
index 20aca9b..aaffa4f 100644
--- a/src/hypertag/core/structs.py
+++ b/src/hypertag/core/structs.py
@@ -363,6 +363,7 @@ class State:
     by nodes of an AST instead of integer positions in a stack. State class resembles Context more than Stack.
     """
     values = None       # dict of (slot, value) pairs
+    expanding = None    # set of native hypertags that are being expanded at the moment
     
     # current indentation string, as a combination of ' ' and '\t' characters;
     # initial \n is used to mark that an indentation is absolute rather than relative to a parent node
@@ -370,6 +371,7 @@ class State:
     
     def __init__(self, values = None):
         self.values = values.copy() if values else {}   #odict()
+        self.expanding = set()
 
     def __contains__(self, slot):
         return slot in self.values
-- 
2.43.0


From c724c439b2f1c8bb6348efb5f9311bd6d7bc7d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:29 +0000
Subject: [PATCH 20/34] fix: a qualifier may follow an embedded expression
 given as an unnamed or default value of an attribute

---
 src/hypertag/core/ast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index cd9b712..732e1b0 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1259,9 +1259,9 @@ class NODES(object):
             
     class xattr_def(attribute):
         def setup(self):
-            assert 1 <= len(self.children) <= 2
+            assert 1 <= len(self.children) <= 3
             self.name = self.children[0].value          # <name_xml>
-            if len(self.children) == 2:
+            if len(self.children) >= 2:                 # there can be a qualifier as self.children[2], like in xattr_named
                 self.expr = self.children[1]
             
     # in-occurrence attributes:  xattr_named, xattr_unnamed, xattr_short
@@ -1275,7 +1275,7 @@ class NODES(object):
             
     class xattr_unnamed(attribute):
         def setup(self):
-            assert len(self.children) == 1
+            assert 1 <= len(self.children) <= 2         # there can be a qualifier as self.children[1], like in xattr_named
             self.expr = self.children[0]
             
     class xattr_short(attribute):
-- 
2.43.0


From 47f7030285653458cfc9dd84f0df97eb24475702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:38 +0000
Subject: [PATCH 21/34] fix: a slice of a DOM is a DOM of the selected nodes

---
 src/hypertag/core/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index 728b92a..6f1905f 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -95,7 +95,7 @@ class DOM:
         if isinstance(pos, int):
             return self.nodes[pos]
         if isinstance(pos, (int, slice)):
-            return DOM(self.nodes[pos], _strict = False)
+            return DOM(*self.nodes[pos], _strict = False)
         # if isinstance(pos, (str, Tag)):
         return self.select(pos)
     
-- 
2.43.0


From 67a7eb9ae27ecb80e051c817ba9fa9762093b416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:23 +0000
Subject: [PATCH 22/34] fix: drop the space between a text marker and the text
 also when the next lines are aligned with the end of the marker

---
 src/hypertag/core/ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 732e1b0..1f0f229 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -495,8 +495,8 @@ class NODES(object):
             size = len(sub_indent)
             
             # if tail lines have shorter indent than the headline, drop all the lead + 1 space (gap)
-            head = lead if size < lead else size
-            if size < lead and outer[0][head:head+1] in (' ', '\t'): head += 1
+            head = max(lead, size)
+            if size <= lead and outer[0][head:head+1] in (' ', '\t'): head += 1
             
             output = '\n'.join([lines[0][head:]] + [line[size:] for line in lines[1:]])
 
-- 
2.43.0


From 594b76f5ad564cb2998c27320909b664342796b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:16 +0000
Subject: [PATCH 23/34] fix: report the right line for a duplicate attribute
 and for a positional attribute that follows a named one

---
 src/hypertag/core/ast.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 1f0f229..781c8a6 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -584,7 +584,8 @@ class NODES(object):
             
             # check that attr names are unique
             if len(self.attr_names) < len(self.attrs):
-                raise SyntaxErrorEx("duplicate attribute '%s' in hypertag definition '%s'" % (duplicate(self.attrs), self.name), self)
+                name = duplicate([attr.name for attr in self.attrs])
+                raise SyntaxErrorEx("duplicate attribute '%s' in hypertag definition '%s'" % (name, self.name), self.attr_names[name])
             
             # pick body attribute (attr_body) and the remaining list of regular attributes (attr_regul)
             if self.attrs and self.attrs[0].body:
@@ -1177,7 +1178,7 @@ class NODES(object):
                 name = attr.name
                 expr = attr.expr
                 if name is None:
-                    if self.named: raise SyntaxErrorEx("positional argument follows keyword argument")
+                    if self.named: raise SyntaxErrorEx("positional argument follows keyword argument", attr)
                     self.unnamed.append(expr)
                 else:
                     # if name in self.named: raise SyntaxErrorEx("attribute '{name}' appears twice on attributes list of tag '{self.name}'", attr)
-- 
2.43.0


From 33dd09c152ba53740836ebd9ab4d7e82326e94e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:35 +0000
Subject: [PATCH 24/34] fix: an end-of-line comment may follow 'pass' or the
 header of a control block without a body

---
 src/hypertag/core/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 23df444..c2db3e0 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -76,7 +76,7 @@ block_struct     =  (tags_expand generic_struct) / body_text    # text block is
 tags_expand      =  null / (tag_expand (ws mark_struct ws tag_expand)*)
 tag_expand       =  name_id attrs_val
 
-special_tag      =  pass ''   #/ break_tag / continue_tag
+special_tag      =  pass inline_comment?   #/ break_tag / continue_tag
 
 null             =  '.'
 pass             =  'pass'
@@ -90,7 +90,7 @@ pass             =  'pass'
 generic_control  =  (ws body_text) / body_control               # like body_control, but additionally allows full-text body
 generic_struct   =  (ws body_text) / body_struct                # like body_struct, but additionally allows full-text body
 
-body_control     =  (ws mark_struct inline_comment? tail_blocks?) / (inline_comment? tail_blocks)
+body_control     =  (ws mark_struct inline_comment? tail_blocks?) / (inline_comment? tail_blocks) / inline_comment
 body_struct      =  (ws mark_struct)? ((ws headline) / inline_comment)? tail_blocks?       # this rule matches empty string '' (!)
 
 body_text        =  block_verbat / block_normal / block_markup / block_embed
-- 
2.43.0


From fcc21ee2afb7f726a1dcc4c0d891c177e6c846c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:46 +0000
Subject: [PATCH 25/34] fix: a variable passed to a script may be named
 'builtins'

---
 src/hypertag/core/runtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index f5bf79d..47d3d16 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -111,10 +111,10 @@ class HyModule(Module):
     symbols = None      # dict of output symbols produced during script parsing, {name: value}
     state   = None      # local State at the end of translation; needed when hypertags from this module are to be expanded
     
-    def translate(self, builtins, __tags__, **variables):
+    def translate(self, __builtins__, __tags__, **variables):
     
         ast = HypertagAST(self.script, self)
-        self.dom, self.symbols, self.state = ast.translate(builtins, __tags__, **variables)
+        self.dom, self.symbols, self.state = ast.translate(__builtins__, __tags__, **variables)
         return self
         
     
-- 
2.43.0


From a957fa83cee65895e56e09b302f87830422af39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:54 +0000
Subject: [PATCH 26/34] fix: rendering a Django template does not modify the
 given context

---
 src/hypertag/django/backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hypertag/django/backend.py b/src/hypertag/django/backend.py
index 4058080..280079e 100644
--- a/src/hypertag/django/backend.py
+++ b/src/hypertag/django/backend.py
@@ -69,8 +69,7 @@ class Template:
         self.filename = filename
 
     def render(self, context=None, request=None):
-        if context is None:
-            context = {}
+        context = dict(context or {})           # a copy, the caller may use the same dict for other templates
         if request is not None:
             context['request'] = request
             context['csrf_input'] = csrf_input_lazy(request)
-- 
2.43.0


From 35fcdc319af2cadb583ad63eada62d77c1570f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 27/34] fix: Django filters can be imported in a project whose
 settings are configured

---
 src/hypertag/django/filters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hypertag/django/filters.py b/src/hypertag/django/filters.py
index 23e1bc8..b1b4f36 100644
--- a/src/hypertag/django/filters.py
+++ b/src/hypertag/django/filters.py
@@ -20,11 +20,12 @@ from django.template.defaultfilters import register as __register_default__
 from django.contrib.humanize.templatetags.humanize import register as __register_humanize__
 
 ##
-## for now, Django's default settings are always used in those filters that depend on them
+## filters that depend on Django settings use the settings of the project, or the default ones if no project is set up
 ##
 
-__settings__.configure()
-__django__.setup()
+if not __settings__.configured:
+    __settings__.configure()
+    __django__.setup()
 
 
 globals().update(__register_humanize__.filters)
-- 
2.43.0


From 28e58c31433b2207e5742e46d04ef9a1b4e82f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:52 +0000
Subject: [PATCH 28/34] fix: invalid escape sequence in a string is a syntax
 error with location

---
 src/hypertag/core/ast.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 781c8a6..ef063b2 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1826,7 +1826,10 @@ class NODES(object):
     class xtext_quot(static):
         r"""In `text_quot1` and `text_quot2` productions, Python's escape characters (\n \t \x.. etc.) must be decoded."""
         def setup(self):
-            self.value = decode_escapes(self.text())
+            try:
+                self.value = decode_escapes(self.text())
+            except UnicodeDecodeError as ex:
+                raise SyntaxErrorEx("invalid escape sequence in a string (%s)" % ex.reason, self)
         
     class xtext_quot1(xtext_quot): pass
     class xtext_quot2(xtext_quot): pass
-- 
2.43.0


From 9450d1e8736872647e6bf03dc4a9a6d100e5bf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:40 +0000
Subject: [PATCH 29/34] fix: a tuple of one item without parentheses is a tuple

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index ef063b2..e7b3a4c 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1983,7 +1983,7 @@ class HypertagAST(BaseTree):
     # nodes that will be replaced with their child if there is exactly 1 child AFTER rewriting of all children;
     # they must have a corresponding x... node class, because pruning is done after rewriting, not before
     _compact_ = "factor_filt factor_strict factor_var factor pow_expr term arith_expr shift_expr and_expr xor_expr or_expr concat_expr " \
-                "pipeline comparison not_test and_test or_test ifelse_test expr_tuple " \
+                "pipeline comparison not_test and_test or_test ifelse_test " \
                 "block_struct"
 
     _reduce_anonym_ = True      # reduce all anonymous nodes, i.e., nodes generated by unnamed expressions, typically groupings (...)
-- 
2.43.0


From 2a9560279a8e4b1f5da10f53bb8b9c6b8bab5611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:58 +0000
Subject: [PATCH 30/34] fix: a raw string does not extend over several lines

---
 src/hypertag/core/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index c2db3e0..be21205 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -270,7 +270,7 @@ boolean          =  ~"(True|False)\\b"
 none             =  ~"None\\b"
 
 string           =  string_format / string_raw
-string_raw       =  ~"r'[^']*'" / ~'r"[^"]*"'         # '...' or "..." string; must not contain ' or " inside (no escaping available)
+string_raw       =  ~"r'[^'\n]*'" / ~'r"[^"\n]*"'     # '...' or "..." string; must not contain ' or " inside (no escaping available)
 
 string_format    =  string_quot1 / string_quot2
 string_quot1     =  "'" (escape / embedding / text_quot1)* "'"
-- 
2.43.0


From de1998df366e03cd960485d5860ff4201a8e76bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:17 +0000
Subject: [PATCH 31/34] fix: names consist of ASCII letters, digits and
 underscores only, as documented

---
 src/hypertag/core/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index be21205..b2189cf 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -251,7 +251,7 @@ op_comp      =  ~"==|!=|<>|>=|<=|<|>|not\s+in|is\s+not|in|is"
 ###  IDENTIFIERS
 
 symbol           =  (mark_def / mark_eval) name_id
-name_id          =  !name_reserved ~"[a-z_][a-z0-9_]*"i
+name_id          =  !name_reserved ~"[a-zA-Z_][a-zA-Z0-9_]*"
 name_reserved    =  ~"(from|import|if|else|elif|try|for|while|break|continue|pass|is|in|not|and|or)\\b"     # names with special meaning inside expressions, disallowed for hypertags & variables; \\b is a regex word boundary and is written with double backslash bcs single backslash-b is converted to a backspace by Python
 
 # names allowed in XML, defined liberally, with nearly all characters allowed to match all valid HTML/XML identifiers (esp. attributes);
-- 
2.43.0


From 56043ad846786ae1cb39987095ffc15e378c715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 32/34] fix: a full stop followed by a space after an inline
 $variable is text, not member access

---
 src/hypertag/core/ast.py     | 4 +++-
 src/hypertag/core/grammar.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index e7b3a4c..000031d 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1514,6 +1514,8 @@ class NODES(object):
             assert self.children[0].type == "name_id"
             member = self.children[0].value
             return getattr(obj, member)
+
+    class xmember_var(xmember): pass
     
     class xqualifier(static):
         def setup(self): self.value = ''
@@ -1977,7 +1979,7 @@ class HypertagAST(BaseTree):
                 "tail_for tail_if tail_verbat tail_normal tail_markup core_verbat core_normal core_markup " \
                 "attrs_def attrs_val attr_val value_of_attr args arg " \
                 "expr_assign embedding embedding_braces embedding_eval target " \
-                "expr_root subexpr slice subscript trailer trailer_filt atom literal dict_pair " \
+                "expr_root subexpr slice subscript trailer trailer_var trailer_filt atom literal dict_pair " \
                 "string string_quot1 string_quot2"
     
     # nodes that will be replaced with their child if there is exactly 1 child AFTER rewriting of all children;
diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index b2189cf..09c13bc 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -188,7 +188,7 @@ dict         =  '{' ws (dict_pair comma)* (dict_pair ws)? '}'
 dict_pair    =  expr_bitwise ws ':' ws expr                   # here, `expr_bitwise` is used instead of `expr` to avoid ambiguity with pipeline operator
 
 atom         =  literal / var_use / tag_use / subexpr / tuple / list / dict / set
-factor_var   =  var_use trailer* qualifier?                   # reduced form of `factor`: a variable with optional trailer, no spaces allowed
+factor_var   =  var_use trailer_var* qualifier?                  # reduced form of `factor`: a variable with optional trailer, no spaces allowed
 factor_strict=  atom trailer* qualifier?                      # reduced form of `factor`: no spaces allowed before the trailer
 factor_filt  =  atom trailer_filt*                            # reduced form of `factor`: no function call () allowed; for use as filter function in `pipeline`
 factor       =  atom (ws trailer)* qualifier?                 # operators: () [] .
@@ -225,7 +225,9 @@ subscript    =  slice / (ws expr_augment ws)
 call         =  '(' ws (args ws)? ')'
 index        =  '[' subscript ']'               # handles atomic indices [i] and all types of [*:*:*] slices
 member       =  '.' ws name_id
+member_var   =  '.' name_id
 trailer      =  call / index / member
+trailer_var  =  call / index / member_var       # form of `trailer` for use in `factor_var`: no space after "." which is then a full stop, as in: | $name. Next sentence
 trailer_filt =  index / member                  # reduced form of `trailer` for use in `factor_filt` and `pipeline`
 
 partial_call =  '(' ws (args ws)? ')'
-- 
2.43.0


From ef17f2159010820d5bc94a710c96f786b171392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:41 +0000
Subject: [PATCH 33/34] fix: '!=' placed right after an operand was parsed as a
 qualifier followed by '='

---
 src/hypertag/core/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 09c13bc..9f31bb6 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -191,7 +191,7 @@ atom         =  literal / var_use / tag_use / subexpr / tuple / list / dict / se
 factor_var   =  var_use trailer_var* qualifier?                  # reduced form of `factor`: a variable with optional trailer, no spaces allowed
 factor_strict=  atom trailer* qualifier?                      # reduced form of `factor`: no spaces allowed before the trailer
 factor_filt  =  atom trailer_filt*                            # reduced form of `factor`: no function call () allowed; for use as filter function in `pipeline`
-factor       =  atom (ws trailer)* qualifier?                 # operators: () [] .
+factor       =  atom (ws trailer)* (!~"!=(?!=)" qualifier)?    # operators: () [] . ... "!=" is an operator, also when placed right after an operand
 
 pow_expr     =  factor (ws op_power ws factor)*
 term         =  pow_expr (ws op_multiplic ws pow_expr)*       # operators: * / // percent
-- 
2.43.0


From 2d0f26411c6cd9189ba2d92025ccbf4e051d9eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:56 +0000
Subject: [PATCH 34/34] fix: errors name the line and column where the
 offending node begins, not where it ends

---
 src/hypertag/nifty/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/nifty/parsing.py b/src/hypertag/nifty/parsing.py
index 21f5ebb..af54a50 100755
--- a/src/hypertag/nifty/parsing.py
+++ b/src/hypertag/nifty/parsing.py
@@ -27,7 +27,7 @@ class ParserError(Exception):
         if node:
             self.node, self.pos, self.text = node, node.pos, node.text(self.MAXLEN)
         if self.pos:                                            # calculate the line number and column of self.pos, if possible
-            prefix = node.fulltext[:self.pos[1]]
+            prefix = node.fulltext[:self.pos[0]]
             self.line = prefix.count('\n') + 1
             self.column = len(prefix) - prefix.rfind('\n')
         msg = self.make_msg(msg) or msg
-- 
2.43.0

