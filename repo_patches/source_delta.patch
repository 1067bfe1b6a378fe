From 391c5fbb218b562a585f3b9b067a964c869940e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:46 +0000
Subject: [PATCH 01/70] fix: emit every valid Python construct when writing
 converted code

astor 0.8.1 raises on match/type/except* statements, drops type parameters and
mis-renders escapes and nested quotes of f-strings on Python 3.12, so such files
crashed the conversion or were rewritten into invalid or different code. Fall back
to ast.unparse whenever astor's text does not parse back to the same tree.
---
 paconvert/converter.py |  4 ++--
 paconvert/utils.py     | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index c68ead4..b20609c 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -23,7 +23,6 @@ import re
 import shutil
 import black
 import isort
-import astor
 
 from paconvert.transformer.basic_transformer import BasicTransformer
 from paconvert.transformer.import_transformer import ImportTransformer
@@ -36,6 +35,7 @@ from paconvert.utils import (
     get_unique_name,
     log_info,
     log_warning,
+    to_source,
 )
 from paconvert.global_var import GlobalManager
 
@@ -373,7 +373,7 @@ class Converter:
                 root = ast.parse(code)
 
             self.transfer_node(root, old_path)
-            code = astor.to_source(root)
+            code = to_source(root)
 
             # format code
             if not self.no_format:
diff --git a/paconvert/utils.py b/paconvert/utils.py
index 99ab447..cbc6ce9 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -12,10 +12,13 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import ast
 import collections
 import os
+import re
 import threading
 
+import astor
 import isort
 
 
@@ -36,6 +39,37 @@ def get_unique_name(key):
     return Generator(key)
 
 
+def _same_ast(left, right):
+    # ctx and the 'u' prefix of a str do not matter to the generated source
+    dumps = [
+        re.sub(r", kind='u'|, ctx=(Load|Store|Del)\(\)", "", ast.dump(tree))
+        for tree in (left, right)
+    ]
+    return dumps[0] == dumps[1]
+
+
+def to_source(node):
+    """
+    Same as astor.to_source, but falls back to ast.unparse when astor can't emit the
+    node (eg: match / type alias) or emits something else (eg: escapes in f-string).
+    """
+    backup = None
+    for generator in (astor.to_source, getattr(ast, "unparse", None)):
+        if generator is None:
+            continue
+        try:
+            code = generator(node)
+            new_node = ast.parse(code)
+        except Exception:
+            continue
+        if isinstance(node, ast.expr) and len(new_node.body) == 1:
+            new_node = getattr(new_node.body[0], "value", new_node)
+        if _same_ast(node, new_node):
+            return code
+        backup = backup or code
+    return backup or astor.to_source(node)
+
+
 class UtilsFileHelper(object):
     _instance = None
     _lock = threading.Lock()
-- 
2.43.0


From 847ca428e796589b63fe919d1da72dfa6dfa2d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:45 +0000
Subject: [PATCH 02/70] fix: keep the converted code unformatted when
 formatting would change it

black 22.8 corrupts Python 3.12 f-strings with nested quotes and isort drops
'import a' from 'import a, a as b'; the formatted text was written unchecked.
---
 paconvert/converter.py | 11 +++++++++--
 paconvert/utils.py     | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index b20609c..555557b 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -33,6 +33,7 @@ from paconvert.transformer.custom_op_transformer import (
 from paconvert.utils import (
     UtilsFileHelper,
     get_unique_name,
+    is_same_code,
     log_info,
     log_warning,
     to_source,
@@ -378,7 +379,10 @@ class Converter:
             # format code
             if not self.no_format:
                 try:
-                    code = black.format_str(code, mode=black.Mode())
+                    new_code = black.format_str(code, mode=black.Mode())
+                    if not is_same_code(code, new_code):
+                        raise ValueError("the formatted code is not equivalent")
+                    code = new_code
                 except Exception as e:
                     log_info(
                         self.logger,
@@ -386,7 +390,10 @@ class Converter:
                     )
 
                 try:
-                    code = isort.code(code)
+                    new_code = isort.code(code)
+                    if not is_same_code(code, new_code):
+                        raise ValueError("the formatted code is not equivalent")
+                    code = new_code
                 except Exception as e:
                     log_info(
                         self.logger,
diff --git a/paconvert/utils.py b/paconvert/utils.py
index cbc6ce9..4938106 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -70,6 +70,39 @@ def to_source(node):
     return backup or astor.to_source(node)
 
 
+def is_same_code(left, right):
+    """
+    Whether the formatted code is equivalent, that is to say, only the order of imports
+    and the whitespace of docstring are changed.
+    """
+
+    def _digest(code):
+        tree = ast.parse(code)
+        imports = set()
+        for node in ast.walk(tree):
+            for name in ("body", "orelse", "finalbody"):
+                body = getattr(node, name, None)
+                if not isinstance(body, list):
+                    continue
+                for stmt in body:
+                    if isinstance(stmt, (ast.Import, ast.ImportFrom)):
+                        module = getattr(stmt, "module", None)
+                        level = getattr(stmt, "level", None)
+                        for alias in stmt.names:
+                            imports.add((module, level, alias.name, alias.asname))
+                setattr(
+                    node,
+                    name,
+                    [s for s in body if not isinstance(s, (ast.Import, ast.ImportFrom))],
+                )
+            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
+                if isinstance(node.value.value, str):
+                    node.value.value = "".join(node.value.value.split())
+        return imports, ast.dump(tree)
+
+    return _digest(left) == _digest(right)
+
+
 class UtilsFileHelper(object):
     _instance = None
     _lock = threading.Lock()
-- 
2.43.0


From 997c76f57ccf973760c47e6fddd4e73bcb61e9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:45 +0000
Subject: [PATCH 03/70] fix: keep the docstring and __future__ imports at the
 top of the module

'import paddle' and the generated helper code were inserted in front of them, so the
docstring was lost and a file with a __future__ import became a SyntaxError.
---
 paconvert/base.py                              | 18 +++++++++++++++++-
 paconvert/transformer/custom_op_transformer.py |  2 +-
 paconvert/transformer/import_transformer.py    |  2 +-
 paconvert/utils.py                             | 14 ++++++++++++--
 4 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index a982469..ed3156b 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -97,6 +97,22 @@ class BaseTransformer(ast.NodeTransformer):
 
         return self.scope_body_index(-2)
 
+    def import_scope_index(self):
+        # new imports must be after the docstring and 'from __future__ import *'
+        index = 0
+        for node in self.root.body:
+            is_docstring = (
+                index == 0
+                and isinstance(node, ast.Expr)
+                and isinstance(node.value, ast.Constant)
+                and isinstance(node.value.value, str)
+            )
+            is_future = isinstance(node, ast.ImportFrom) and node.module == "__future__"
+            if not is_docstring and not is_future:
+                break
+            index += 1
+        return self.root, "body", index
+
     def insert_scope(self):
         # if multiple line, insert into scope node only One time
         for scope_node in self.scope_insert_lines:
@@ -158,7 +174,7 @@ class BaseTransformer(ast.NodeTransformer):
                 other_nodes.append(node)
 
         if len(import_nodes) > 0:
-            self.record_scope((self.root, "body", 0), import_nodes)
+            self.record_scope(self.import_scope_index(), import_nodes)
 
         if len(other_nodes) > 0:
             if isinstance(self.parent_node, (ast.DictComp, ast.ListComp)):
diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index 673256e..8e5233c 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -199,7 +199,7 @@ class CustomOpTransformer(BaseTransformer):
 
         if len(import_list) > 0:
             import_node = ast.parse("import " + ", ".join(import_list))
-            self.record_scope((self.root, "body", 0), import_node.body)
+            self.record_scope(self.import_scope_index(), import_node.body)
 
         if len(new_node_names) > 0:
             node.names = new_node_names
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 99a2084..f348b4a 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -522,6 +522,6 @@ class ImportTransformer(BaseTransformer):
                 self.file_name,
             )
             self.record_scope(
-                (self.root, "body", 0), ast.parse(f"import {paddle_package}").body
+                self.import_scope_index(), ast.parse(f"import {paddle_package}").body
             )
             line_NO += 1
diff --git a/paconvert/utils.py b/paconvert/utils.py
index 4938106..20fbfcc 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -157,6 +157,16 @@ class UtilsFileHelper(object):
         i = 0
         n = len(lines)
 
+        # skip the docstring of module
+        try:
+            root = ast.parse(
+                "\n".join(re.sub("^>>>>>>", "", line) for line in lines)
+            )
+            if ast.get_docstring(root) is not None:
+                insert_idx = i = root.body[0].end_lineno
+        except SyntaxError:
+            pass
+
         while i < n:
             line = lines[i]
             stripped = line.strip()
@@ -219,11 +229,11 @@ class UtilsFileHelper(object):
 
         # insert the new code into the existing file
         if not self.is_dir_mode:
-            with open(self.fileName, "r") as f:
+            with open(self.fileName, "r", encoding="UTF-8") as f:
                 existing_content = f.read()
 
             # find a position to insert the new code
-            lines = existing_content.splitlines()
+            lines = existing_content.split("\n")
             insert_idx = self._find_import_insert_idx(lines)
 
             # insert the new code after all imports
-- 
2.43.0


From 8208571f92180bf8cd03e1ca44db1f61120b4e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:21 +0000
Subject: [PATCH 04/70] fix: do not turn a string statement into the docstring
 of the module

---
 paconvert/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index ed3156b..6bdf0af 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -44,6 +44,7 @@ class BaseTransformer(ast.NodeTransformer):
         self.torch_api_count = 0
         self.success_api_count = 0
         self.root = root
+        self.first_node = root.body[0] if root.body else None
         self.node_stack = []
         self.scope_stack = []
         self.scope_insert_lines = collections.defaultdict(dict)
@@ -102,7 +103,7 @@ class BaseTransformer(ast.NodeTransformer):
         index = 0
         for node in self.root.body:
             is_docstring = (
-                index == 0
+                node is self.first_node
                 and isinstance(node, ast.Expr)
                 and isinstance(node.value, ast.Constant)
                 and isinstance(node.value.value, str)
-- 
2.43.0


From 0cc79adfda7a86b329739ee26a77352c717f6995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:21 +0000
Subject: [PATCH 05/70] fix: keep a body valid after all of its imports are
 removed

---
 paconvert/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index 6bdf0af..47ecb19 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -56,6 +56,17 @@ class BaseTransformer(ast.NodeTransformer):
     def transform(self):
         self.visit(self.root)
         self.insert_scope()
+        self.fill_empty_body()
+
+    def fill_empty_body(self):
+        # the body can be empty after removing nodes, eg: 'import torch' in function
+        for node in ast.walk(self.root):
+            if node is self.root:
+                continue
+            if getattr(node, "body", None) == []:
+                node.body.append(ast.Pass())
+            if getattr(node, "finalbody", None) == [] and not node.handlers:
+                node.finalbody.append(ast.Pass())
 
     def visit(self, node):
         self.node_stack.append(node)
-- 
2.43.0


From f07d617dd55adf50a479b7939d29ab8dbb0544d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:21 +0000
Subject: [PATCH 06/70] fix: insert the extra lines of an API only where they
 are evaluated the same way

---
 paconvert/base.py                             | 75 +++++++++++++++++--
 .../transformer/custom_op_transformer.py      |  2 +-
 2 files changed, 68 insertions(+), 9 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 47ecb19..77ad998 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -95,19 +95,17 @@ class BaseTransformer(ast.NodeTransformer):
                         if node == self.node_stack[i + 1]:
                             return scope_node, "orelse", index
 
-                # decorator in (function scope)
-                if getattr(scope_node, "decorator_list", None):
-                    for index, node in enumerate(scope_node.decorator_list):
-                        if node == self.node_stack[i + 1]:
-                            return scope_node, "decorator_list", index
-
                 # finnally in (try scope)
                 if getattr(scope_node, "finalbody", None):
                     for index, node in enumerate(scope_node.finalbody):
                         if node == self.node_stack[i + 1]:
                             return scope_node, "finalbody", index
 
-        return self.scope_body_index(-2)
+                break
+
+        # not in any body of this scope, eg: decorator/default argument of function,
+        # condition of if, type of except, so it belongs to the outer scope
+        return self.scope_body_index(level - 1)
 
     def import_scope_index(self):
         # new imports must be after the docstring and 'from __future__ import *'
@@ -171,6 +169,49 @@ class BaseTransformer(ast.NodeTransformer):
         else:
             self.scope_insert_lines[scope_node][body] = {index: node_list}
 
+    def can_insert_before_stmt(self):
+        """
+        The extra lines are inserted before the statement, which is wrong when current
+        node is evaluated repeatedly, conditionally or with other variables, eg:
+            [torch.xxx(i) for i in x]
+            lambda i: torch.xxx(i)
+            while torch.xxx(i):
+            a and torch.xxx(i)
+        """
+        for i in range(len(self.node_stack) - 1, 0, -1):
+            node, parent = self.node_stack[i], self.node_stack[i - 1]
+            if isinstance(node, (ast.stmt, ast.ExceptHandler)):
+                break
+            if isinstance(parent, ast.ExceptHandler):
+                return False
+            if isinstance(parent, ast.Lambda) and node is parent.body:
+                return False
+            if isinstance(
+                parent, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
+            ):
+                # only the first iter is evaluated outside the comprehension
+                if (
+                    node is not parent.generators[0]
+                    or self.node_stack[i + 1] is not node.iter
+                ):
+                    return False
+            if isinstance(parent, ast.BoolOp) and node is not parent.values[0]:
+                return False
+            if isinstance(parent, ast.IfExp) and node is not parent.test:
+                return False
+            if isinstance(parent, ast.Compare) and node in parent.comparators[1:]:
+                return False
+            if isinstance(parent, ast.While) and node is parent.test:
+                return False
+            if isinstance(parent, ast.Assert) and node is parent.msg:
+                return False
+            if isinstance(parent, (ast.With, ast.AsyncWith)):
+                if node in parent.items[1:]:
+                    return False
+            if node is getattr(parent, "guard", None):
+                return False
+        return True
+
     def insert_multi_node(self, node_list):
         if len(node_list) == 0:
             return True
@@ -189,7 +230,7 @@ class BaseTransformer(ast.NodeTransformer):
             self.record_scope(self.import_scope_index(), import_nodes)
 
         if len(other_nodes) > 0:
-            if isinstance(self.parent_node, (ast.DictComp, ast.ListComp)):
+            if not self.can_insert_before_stmt():
                 return False
             self.record_scope(self.scope_body_index(), other_nodes)
 
@@ -304,6 +345,24 @@ class BaseTransformer(ast.NodeTransformer):
         self.scope_stack.pop()
         return node
 
+    def visit_AsyncFunctionDef(self, node):
+        return BaseTransformer.visit_FunctionDef(self, node)
+
+    def visit_ClassDef(self, node):
+        return BaseTransformer.visit_FunctionDef(self, node)
+
+    def visit_AsyncFor(self, node):
+        return BaseTransformer.visit_FunctionDef(self, node)
+
+    def visit_AsyncWith(self, node):
+        return BaseTransformer.visit_FunctionDef(self, node)
+
+    def visit_TryStar(self, node):
+        return BaseTransformer.visit_FunctionDef(self, node)
+
+    def visit_match_case(self, node):
+        return BaseTransformer.visit_FunctionDef(self, node)
+
     def visit_While(self, node):
         self.scope_stack.append(node)
         super(BaseTransformer, self).generic_visit(node)
diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index 8e5233c..dc7c6d3 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -208,7 +208,7 @@ class CustomOpTransformer(BaseTransformer):
             return None
 
     def visit_ClassDef(self, node):
-        super(CustomOpTransformer, self).generic_visit(node)
+        super(CustomOpTransformer, self).visit_ClassDef(node)
         for autograd_func_node, cpp_ext in AUTOGRAD_FUNC_NODES.items():
             if autograd_func_node == node:
                 log_debug(
-- 
2.43.0


From f03b79b5df89d96f754c57fc6acb5354e8d39d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:21 +0000
Subject: [PATCH 07/70] fix: make the converted code independent of hash seed
 and directory order

---
 paconvert/converter.py                      | 47 ++++++++++++---------
 paconvert/transformer/import_transformer.py |  6 ++-
 2 files changed, 30 insertions(+), 23 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 555557b..df8e501 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -42,7 +42,7 @@ from paconvert.global_var import GlobalManager
 
 
 def listdir_nohidden(path):
-    for f in os.listdir(path):
+    for f in sorted(os.listdir(path)):
         if not f.startswith("."):
             yield f
 
@@ -467,26 +467,31 @@ class Converter:
             if self.only_complete:
                 break
 
-    def mask_change_prefix_apis(self, text, file):
-        keep_apis = sorted(self.change_prefix_api_map[file], key=len, reverse=True)
-
-        def _mask_match(match):
-            matched = match.group(0)
-            chars = []
-            for ch in matched:
-                if ch == "\n":
-                    chars.append("\n")
-                elif ch.isspace():
-                    chars.append(ch)
-                else:
-                    chars.append("_")
-            return "".join(chars)
-
-        for api in keep_apis:
-            api_pattern = re.escape(api).replace(r"\.", r"\s*\.\s*")
-            pattern = re.compile(rf"(?<![\w\.]){api_pattern}(?![\w\.])", re.DOTALL)
-            text = pattern.sub(_mask_match, text)
-        return text
+    def get_unsupport_lines(self, code, file):
+        """
+        line numbers of the torch api which are still in the code, such as torch.xxx
+        """
+        line_nos = set()
+        keep_apis = self.change_prefix_api_map[file] if self.mode == "min" else set()
+
+        def _visit(node):
+            if isinstance(node, ast.Attribute):
+                attr_list = []
+                value = node
+                while isinstance(value, ast.Attribute):
+                    attr_list.append(value.attr)
+                    value = value.value
+                if isinstance(value, ast.Name):
+                    if value.id in self.imports_map[file]["torch_packages"]:
+                        torch_api = ".".join([value.id] + attr_list[::-1])
+                        if torch_api not in keep_apis:
+                            line_nos.add(value.lineno)
+                    return
+            for child in ast.iter_child_nodes(node):
+                _visit(child)
+
+        _visit(ast.parse(code))
+        return line_nos
 
     def mark_unsupport(self, code, file):
         scan_code = code
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index f348b4a..0f1cc4c 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -507,12 +507,14 @@ class ImportTransformer(BaseTransformer):
         super(ImportTransformer, self).generic_visit(node)
         line_NO = 1
         paddle_package_list = []
-        for torch_package in self.imports_map[self.file]["torch_packages"]:
+        for torch_package in sorted(self.imports_map[self.file]["torch_packages"]):
             paddle_package_list.append(
                 GlobalManager.TORCH_PACKAGE_MAPPING[torch_package]
             )
 
-        for may_torch_package in self.imports_map[self.file]["may_torch_packages"]:
+        for may_torch_package in sorted(
+            self.imports_map[self.file]["may_torch_packages"]
+        ):
             paddle_package_list.append(may_torch_package)
 
         for paddle_package in paddle_package_list:
-- 
2.43.0


From 4582922a4d09409bad77668175a0c06ae75f2834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:21 +0000
Subject: [PATCH 08/70] fix: do not convert the output directory when it is
 inside the input directory

---
 paconvert/converter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index df8e501..09b23cd 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -105,6 +105,7 @@ class Converter:
             out_dir = os.path.abspath(out_dir)
 
         assert out_dir != in_dir, "--out_dir must be different from --in_dir"
+        self.out_dir = out_dir
 
         if exclude:
             exclude = exclude.split(",")
@@ -343,6 +344,10 @@ class Converter:
                 old_path = os.path.join(in_dir, item)
                 new_path = os.path.join(out_dir, item)
 
+                # --out_dir can be in --in_dir, avoid to convert the result again
+                if old_path == self.out_dir:
+                    continue
+
                 is_exclude = False
                 if exclude:
                     for pattern in exclude:
-- 
2.43.0


From d1d8ede170b336ffee6c8c9f7f7e01f575df0d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:22 +0000
Subject: [PATCH 09/70] fix: replace only the torch dependency in
 requirements.txt

---
 paconvert/converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 09b23cd..8958778 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -432,7 +432,8 @@ class Converter:
             )
             with open(old_path, "r", encoding="UTF-8") as old_file:
                 code = old_file.read()
-            code = code.replace("torch", "paddlepaddle-gpu")
+            # only torch itself, not torchvision, pytorch-lightning, ...
+            code = re.sub(r"(?<![\w.-])torch(?![\w.-])", "paddlepaddle-gpu", code)
             with open(new_path, "w", encoding="UTF-8") as new_file:
                 new_file.write(code)
             log_info(
-- 
2.43.0


From 06c796ff526957035887b6a8e14a9afe1f7c1d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:22 +0000
Subject: [PATCH 10/70] fix: find the lines of unsupported APIs from the syntax
 tree

---
 paconvert/converter.py | 61 +++++-------------------------------------
 1 file changed, 7 insertions(+), 54 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 8958778..dfd7564 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -500,65 +500,18 @@ class Converter:
         return line_nos
 
     def mark_unsupport(self, code, file):
-        scan_code = code
-        if self.mode == "min":
-            scan_code = self.mask_change_prefix_apis(code, file)
-
         lines = code.split("\n")
-        scan_lines = scan_code.split("\n")
+        unsupport_lines = self.get_unsupport_lines(code, file)
         mark_next_line = False
-        in_str = False
-        bracket_num = 0
         for i, line in enumerate(lines):
             if "Not Support auto convert" in line:
                 mark_next_line = True
                 continue
-            else:
-                # func decorator_list: @
-                if mark_next_line and line != "@":
-                    lines[i] = ">>>>>>" + line
-                    mark_next_line = False
-                    continue
-
-            # """ torch.* """
-            # " torch.* "
-            # ' torch.* '
-            # " (torch "
-            # " torch) "
-            # just remove the str, avoid str influence the torch api recognize
-            scan_source = scan_lines[i]
-            rm_str_line = re.sub(r"[\"]{3}[^\"]+[\"]{3}", "", scan_source)
-            rm_str_line = re.sub(r"[\"]{1}[^\"]+[\"]{1}", "", rm_str_line)
-            rm_str_line = re.sub(r"[\']{1}[^\']+[\']{1}", "", rm_str_line)
-
-            # """
-            # torch.*
-            # """
-            last_in_str = in_str
-            if rm_str_line.count('"""') % 2 != 0:
-                in_str = not in_str
-            if last_in_str or in_str:
-                continue
-
-            scan_line = rm_str_line
-            if self.mode == "min":
-                stripped_line = rm_str_line.strip()
-                if stripped_line.startswith("import ") or stripped_line.startswith(
-                    "from "
-                ):
-                    continue
-
-            for torch_package in self.imports_map[file]["torch_packages"]:
-                if scan_line.startswith("%s." % torch_package):
-                    lines[i] = ">>>>>>" + line
-                    break
-
-                # model_torch.npy
-                # modeltorch.npy
-                # 1torch.npy
-                # paddleformers.transformers.*
-                if re.match(r".*[^\w\.]{1}%s\." % torch_package, scan_line):
-                    lines[i] = ">>>>>>" + line
-                    break
+            # skip the blank line between annotation and func/class
+            if mark_next_line and line.strip():
+                lines[i] = ">>>>>>" + line
+                mark_next_line = False
+            elif i + 1 in unsupport_lines:
+                lines[i] = ">>>>>>" + line
 
         return "\n".join(lines)
-- 
2.43.0


From a97f2a43eeeec52cd55d84c54ccfa9fa3c508fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:22 +0000
Subject: [PATCH 11/70] fix: keep the count of an API when one of its usages is
 misidentified

---
 paconvert/transformer/basic_transformer.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index e804dfb..2727f27 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -169,7 +169,7 @@ class BasicTransformer(BaseTransformer):
                 elif paddle_api == "misidentify":
                     # This API usage indicate that is is not a Pytorch API
                     self.torch_api_count -= 1
-                    del self.all_api_map[torch_api]
+                    self.remove_api_count(torch_api)
                     log_debug(
                         self.logger,
                         " Misidentify {}".format(torch_api),
@@ -344,7 +344,7 @@ class BasicTransformer(BaseTransformer):
             elif node_list == "misidentify":
                 # This API usage indicate that it is not this class attribute
                 self.torch_api_count -= 1
-                del self.all_api_map[torch_api]
+                self.remove_api_count(torch_api)
                 log_debug(
                     self.logger,
                     " Misidentify Class Attribute: {}".format(torch_api),
@@ -492,7 +492,7 @@ class BasicTransformer(BaseTransformer):
                 elif node_list == "misidentify":
                     # This API usage indicate that is is not a Pytorch API
                     self.torch_api_count -= 1
-                    del self.all_api_map[torch_api]
+                    self.remove_api_count(torch_api)
                     log_debug(
                         self.logger,
                         " Misidentify {}".format(torch_api),
@@ -693,7 +693,7 @@ class BasicTransformer(BaseTransformer):
                 return node
             elif node_list == "misidentify":
                 self.torch_api_count -= 1
-                del self.all_api_map[torch_api]
+                self.remove_api_count(torch_api)
                 # This API usage indicate that it is not this class method
                 log_debug(
                     self.logger,
@@ -766,6 +766,11 @@ class BasicTransformer(BaseTransformer):
         )
         return node
 
+    def remove_api_count(self, torch_api):
+        self.all_api_map[torch_api]["count"] -= 1
+        if self.all_api_map[torch_api]["count"] == 0:
+            del self.all_api_map[torch_api]
+
     def start_with_torch(self, torch_api):
         for torch_package in self.imports_map[self.file]["torch_packages"]:
             if torch_api.startswith("%s." % torch_package):
-- 
2.43.0


From 49baf3af2f73d9a8e2013c080c382fb15e9d60f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:22 +0000
Subject: [PATCH 12/70] fix: do not crash when a loaded cpp extension is not
 assigned to a name

---
 paconvert/transformer/custom_op_transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index dc7c6d3..9785c06 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -79,7 +79,9 @@ class PreCustomOpTransformer(BaseTransformer):
         super(PreCustomOpTransformer, self).generic_visit(node)
         if isinstance(node.value, ast.Call):
             if "paddle.utils.cpp_extension.load" == self.get_full_attr(node.value.func):
-                self.cpp_ext_load_names.append(node.targets[0].id)
+                for target in node.targets:
+                    if isinstance(target, ast.Name):
+                        self.cpp_ext_load_names.append(target.id)
         return node
 
     def visit_Attribute(self, node):
-- 
2.43.0


From 4da627b3670c9465d99ffc4a7bc664e7a4995afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:22 +0000
Subject: [PATCH 13/70] fix: keep the packages imported after a module of the
 project

---
 paconvert/transformer/import_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 0f1cc4c..0b07ac1 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -67,7 +67,7 @@ class ImportTransformer(BaseTransformer):
             if os.path.exists(import_path) or os.path.exists(import_path + ".py"):
                 self.insert_other_packages(self.imports_map, alias_node)
                 new_node_names.append(alias_node)
-                break
+                continue
 
             # 2. import from TORCH_PACKAGE_MAPPING (which means replace api one by one)
             for pkg_name in (
-- 
2.43.0


From 4d62285d6210c7ca10f84d86aa12ec2f0577d3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:22 +0000
Subject: [PATCH 14/70] fix: write the utils code of each conversion to its own
 file

---
 paconvert/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paconvert/utils.py b/paconvert/utils.py
index 20fbfcc..c4fb501 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -119,7 +119,9 @@ class UtilsFileHelper(object):
     )
 
     def __init__(self, fileName=None, is_dir_mode=False, logger=None):
-        if not hasattr(self, "initialized"):
+        # UtilsFileHelper() just get the helper of current conversion, while
+        # UtilsFileHelper(fileName, ...) starts a new conversion
+        if not hasattr(self, "initialized") or fileName:
             super().__init__()
             self.fileName = fileName
             self.is_dir_mode = is_dir_mode
-- 
2.43.0


From 68e9639f08bf28b5e2a752fc3efc59550b65fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:35 +0000
Subject: [PATCH 15/70] fix: negate the whole expression of
 requires_grad/non_blocking/some

---
 paconvert/api_matcher.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index d9baa11..96b3e48 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -122,7 +122,7 @@ class GenericMatcher(BaseMatcher):
 
         stop_gradient_v = "None"
         if "requires_grad" in kwargs and "requires_grad" not in kwargs_change_value:
-            stop_gradient_v = "not " + kwargs.pop("requires_grad").strip("()")
+            stop_gradient_v = "not " + kwargs.pop("requires_grad")
 
         out_v = "None"
         if "out" in kwargs and "out" not in kwargs_change_value:
@@ -1826,7 +1826,7 @@ class TensorNew_Matcher(BaseMatcher):
 
         stop_gradient_v = None
         if "requires_grad" in kwargs:
-            stop_gradient_v = "not " + kwargs.pop("requires_grad").strip("()")
+            stop_gradient_v = "not " + kwargs.pop("requires_grad")
 
         pin_memory_v = False
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
@@ -1870,7 +1870,7 @@ class TensorNewFullMatcher(BaseMatcher):
 
         stop_gradient_v = None
         if "requires_grad" in kwargs:
-            stop_gradient_v = "not " + kwargs.pop("requires_grad").strip("()")
+            stop_gradient_v = "not " + kwargs.pop("requires_grad")
 
         pin_memory_v = False
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
@@ -1909,7 +1909,7 @@ class TensorNewTensorMatcher(BaseMatcher):
             kwargs.pop("device")
 
         if "requires_grad" in kwargs:
-            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad").strip("()")
+            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad")
 
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
             kwargs["place"] = "paddle.CUDAPinnedPlace()"
@@ -1929,7 +1929,7 @@ class TorchTensorMatcher(BaseMatcher):
             if "cuda" in kwargs["place"]:
                 kwargs["place"] = kwargs["place"].replace("cuda", "gpu")
         if "requires_grad" in kwargs:
-            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad").strip("()")
+            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad")
 
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
             kwargs["place"] = "paddle.CUDAPinnedPlace()"
@@ -2563,7 +2563,7 @@ class TensorToMatcher(BaseMatcher):
         if "memory_format" in new_kwargs:
             new_kwargs.pop("memory_format")
         if "non_blocking" in new_kwargs:
-            new_kwargs["blocking"] = "not " + new_kwargs.pop("non_blocking").strip("()")
+            new_kwargs["blocking"] = "not " + new_kwargs.pop("non_blocking")
         if "device" in new_kwargs:
             if "cuda" in new_kwargs["device"]:
                 new_kwargs["device"] = new_kwargs["device"].replace("cuda", "gpu")
@@ -4359,7 +4359,7 @@ class SvdMatcher(BaseMatcher):
             kwargs["x"] = self.paddleClass
 
         if "some" in kwargs:
-            kwargs["full_matrices"] = "not " + kwargs.pop("some").strip("()")
+            kwargs["full_matrices"] = "not " + kwargs.pop("some")
 
         if "out" in kwargs and kwargs["out"] != "None":
             out_v = kwargs.pop("out")
-- 
2.43.0


From ba1f298c4ab6ff2e9c4ae628b503bbeeeed80ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:35 +0000
Subject: [PATCH 16/70] fix: use the dim of input to decide the axis of softmin

---
 paconvert/api_matcher.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 96b3e48..b2b03c5 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -3025,10 +3025,11 @@ class FSoftMinMatcher(BaseMatcher):
         return CODE_TEMPLATE
 
     def generate_code(self, kwargs):
-        kwargs["input"] = f"-{kwargs['input']}"
+        input_v = kwargs["input"]
+        kwargs["input"] = f"-{input_v}"
         if "dim" not in kwargs or kwargs["dim"] == "None":
             self.enable_utils_code()
-            kwargs["dim"] = "_get_softmin_dim({}.ndim)".format(kwargs["input"])
+            kwargs["dim"] = "_get_softmin_dim({}.ndim)".format(input_v)
             return GenericMatcher.generate_code(self, kwargs)
         else:
             return GenericMatcher.generate_code(self, kwargs)
-- 
2.43.0


From 7841b098e8adb9c4883ccccdc14b3788a12ede80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:35 +0000
Subject: [PATCH 17/70] fix: do not overwrite the input of index_copy

---
 paconvert/api_matcher.py | 55 +++++++---------------------------------
 1 file changed, 9 insertions(+), 46 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index b2b03c5..669f15b 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -2451,53 +2451,16 @@ class IndexCopyMatcher(BaseMatcher):
                 )
             return code
 
+        code = "paddle.scatter({}.moveaxis({}, 0), {}, {}.moveaxis({}, 0)).moveaxis(0, {})".format(
+            kwargs["input"],
+            kwargs["dim"],
+            kwargs["index"],
+            kwargs["source"],
+            kwargs["dim"],
+            kwargs["dim"],
+        )
         if out_v:
-            API_TEMPLATE = textwrap.dedent(
-                """
-                times, temp_shape, temp_index = paddle.prod(paddle.to_tensor({}.shape[:{}])), {}.shape, {}
-                {}, new_t = {}.reshape([-1] + temp_shape[{}+1:]), {}.reshape([-1] + temp_shape[{}+1:])
-                for i in range(1, times):
-                    temp_index= paddle.concat([temp_index, index+len(index)*i])
-                paddle.assign(paddle.scatter({}, temp_index, new_t).reshape(temp_shape), {})
-                """
-            )
-
-            code = API_TEMPLATE.format(
-                kwargs["input"],
-                kwargs["dim"],
-                kwargs["input"],
-                kwargs["index"],
-                kwargs["input"],
-                kwargs["input"],
-                kwargs["dim"],
-                kwargs["source"],
-                kwargs["dim"],
-                kwargs["input"],
-                out_v,
-            )
-        else:
-            API_TEMPLATE = textwrap.dedent(
-                """
-                times, temp_shape, temp_index = paddle.prod(paddle.to_tensor({}.shape[:{}])), {}.shape, {}
-                {}, new_t = {}.reshape([-1] + temp_shape[{}+1:]), {}.reshape([-1] + temp_shape[{}+1:])
-                for i in range(1, times):
-                    temp_index= paddle.concat([temp_index, index+len(index)*i])
-                paddle.scatter({}, temp_index, new_t).reshape(temp_shape)
-                """
-            )
-
-            code = API_TEMPLATE.format(
-                kwargs["input"],
-                kwargs["dim"],
-                kwargs["input"],
-                kwargs["index"],
-                kwargs["input"],
-                kwargs["input"],
-                kwargs["dim"],
-                kwargs["source"],
-                kwargs["dim"],
-                kwargs["input"],
-            )
+            code = "paddle.assign({}, {})".format(code, out_v)
 
         return code
 
-- 
2.43.0


From 5e54ee60ffb86ce8bbbe3173070c01ae7cf538c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:35 +0000
Subject: [PATCH 18/70] fix: mark an API whose usage is unexpected instead of
 aborting

---
 paconvert/transformer/basic_transformer.py | 24 ++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 2727f27..5f3bd2d 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -319,7 +319,9 @@ class BasicTransformer(BaseTransformer):
             self.all_api_map[torch_api]["paddle_api"] = (
                 matcher.get_paddle_api() if matcher.get_paddle_api() else ""
             )
-            node_list = matcher.get_paddle_class_attribute_nodes(node)
+            node_list = self.try_match(
+                matcher.get_paddle_class_attribute_nodes, node
+            )
             if node_list == "delete":
                 if isinstance(self.parent_node, ast.Expr):
                     self.success_api_count += 1
@@ -478,7 +480,9 @@ class BasicTransformer(BaseTransformer):
                 self.all_api_map[torch_api]["paddle_api"] = (
                     matcher.get_paddle_api() if matcher.get_paddle_api() else ""
                 )
-                node_list = matcher.get_paddle_nodes(node.args, node.keywords)
+                node_list = self.try_match(
+                    matcher.get_paddle_nodes, node.args, node.keywords
+                )
                 if node_list == "delete":
                     if isinstance(self.parent_node, ast.Expr):
                         self.success_api_count += 1
@@ -667,8 +671,8 @@ class BasicTransformer(BaseTransformer):
             self.all_api_map[torch_api]["paddle_api"] = (
                 matcher.get_paddle_api() if matcher.get_paddle_api() else ""
             )
-            node_list = matcher.get_paddle_class_nodes(
-                node.func, node_args, node.keywords
+            node_list = self.try_match(
+                matcher.get_paddle_class_nodes, node.func, node_args, node.keywords
             )
             if node_list == "delete":
                 if isinstance(self.parent_node, ast.Expr):
@@ -766,6 +770,18 @@ class BasicTransformer(BaseTransformer):
         )
         return node
 
+    def try_match(self, func, *args):
+        # unexpected usage of an API should be marked, not abort the whole conversion
+        try:
+            return func(*args)
+        except Exception as e:
+            log_info(
+                self.logger,
+                "Failed to match API due to error: {}".format(repr(e)),
+                self.file_name,
+            )
+            return None
+
     def remove_api_count(self, torch_api):
         self.all_api_map[torch_api]["count"] -= 1
         if self.all_api_map[torch_api]["count"] == 0:
-- 
2.43.0


From 44b4713dd9cf7f9f1150e639ec75adce0e5ecdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:35 +0000
Subject: [PATCH 19/70] fix: torch.autograd.Function.backward has no
 corresponding API

---
 paconvert/api_mapping.json | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/paconvert/api_mapping.json b/paconvert/api_mapping.json
index 135abe6..4d9311c 100644
--- a/paconvert/api_mapping.json
+++ b/paconvert/api_mapping.json
@@ -2985,15 +2985,6 @@
     "Matcher": "ChangePrefixMatcher"
   },
   "torch.autograd.Function.backward": {
-    "Matcher": "GenericMatcher",
-    "args_list": [
-      "ctx",
-      "*grad_outputs"
-    ],
-    "kwargs_change": {
-      "grad_outputs": "args"
-    },
-    "abstract": true,
     "min_input_args": 1
   },
   "torch.autograd.Function.forward": {
-- 
2.43.0


From b8d9d03270e3579b99c14f7711819c71994de1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:35 +0000
Subject: [PATCH 20/70] fix: make the temporary variables of converted code
 unique

---
 paconvert/api_matcher.py | 67 +++++++++++++++++++++-------------------
 paconvert/converter.py   |  2 ++
 paconvert/utils.py       | 29 +++++++++++++++--
 3 files changed, 63 insertions(+), 35 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 669f15b..63bc631 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -22,7 +22,7 @@ import textwrap
 
 from paconvert.base import BaseMatcher
 from paconvert.transformer.custom_op_transformer import CPP_EXTENSION_LIST  # noqa: F401
-from paconvert.utils import get_unique_name
+from paconvert.utils import get_unique_name, rename_template
 from paconvert.global_var import GlobalManager
 
 TypePromoteFunc = textwrap.dedent(
@@ -987,7 +987,7 @@ class MakeTMatcher(BaseMatcher):
                 out
                 """
             )
-            code = API_TEMPLATE.format(
+            code = rename_template(API_TEMPLATE, ["out"]).format(
                 kwargs["shape"],
                 kwargs["dtype"],
                 kwargs["low"],
@@ -3388,7 +3388,7 @@ class SLogDetMatcher(BaseMatcher):
                 paddle.assign(res[0], {}[0]), paddle.assign(res[1], {}[1])
                 """
             )
-            code = API_TEMPLATE.format(x_v, out_v, out_v)
+            code = rename_template(API_TEMPLATE, ["res"]).format(x_v, out_v, out_v)
         else:
             API_TEMPLATE = textwrap.dedent(
                 """
@@ -3396,7 +3396,7 @@ class SLogDetMatcher(BaseMatcher):
                 res[0], res[1].astype("float32")
                 """
             )
-            code = API_TEMPLATE.format(x_v)
+            code = rename_template(API_TEMPLATE, ["res"]).format(x_v)
 
         return code
 
@@ -3463,7 +3463,7 @@ class LinalgInvExMatcher(BaseMatcher):
                 paddle.assign(out1, output={}[0]), paddle.assign(out2, output={}[1])
                 """
             )
-            code = API_TEMPLATE.format(kwargs["A"], kwargs["A"], out_v, out_v)
+            code = rename_template(API_TEMPLATE, ["out1", "out2"]).format(kwargs["A"], kwargs["A"], out_v, out_v)
             return code
         else:
             API_TEMPLATE = textwrap.dedent(
@@ -3488,7 +3488,7 @@ class LinalgCholeskyExMatcher(BaseMatcher):
                 paddle.assign(out1, output={}[0]), paddle.assign(out2, output={}[1])
                 """
             )
-            code = API_TEMPLATE.format(
+            code = rename_template(API_TEMPLATE, ["out1", "out2"]).format(
                 kwargs["input"], kwargs["upper"], kwargs["input"], out_v, out_v
             )
             return code
@@ -3595,7 +3595,7 @@ class DoubleAssignMatcher(BaseMatcher):
                 paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1])
                 """
             )
-            code = API_TEMPLATE.format(
+            code = rename_template(API_TEMPLATE, ["out1", "out2"]).format(
                 self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v
             )
         else:
@@ -3615,7 +3615,7 @@ class TripleAssignMatcher(BaseMatcher):
                 paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1]), paddle.assign(out3, {}[2])
                 """
             )
-            code = API_TEMPLATE.format(
+            code = rename_template(API_TEMPLATE, ["out1", "out2", "out3"]).format(
                 self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v, out_v
             )
         else:
@@ -3876,7 +3876,7 @@ class SortMatcher(BaseMatcher):
                 paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1])
                 """
             )
-            code = API_TEMPLATE.format(
+            code = rename_template(API_TEMPLATE, ["out1", "out2"]).format(
                 self.kwargs_to_str(kwargs), self.kwargs_to_str(kwargs), out_v, out_v
             )
         return code
@@ -4095,7 +4095,7 @@ class LRSchedulerMatcher(BaseMatcher):
             tmp_lr
             """
         )
-        code = API_TEMPLATE.format(
+        code = rename_template(API_TEMPLATE, ["tmp_lr"]).format(
             self.get_paddle_api(), self.kwargs_to_str(kwargs), optimizer
         )
 
@@ -4221,7 +4221,7 @@ class LuMatcher(BaseMatcher):
                     paddle.assign(tmp_lu, {}[0]), paddle.assign(tmp_p, {}[1]), paddle.assign(tmp_info, {}[2])
                     """
                 )
-                code = API_TEMPLATE.format(
+                code = rename_template(API_TEMPLATE, ["tmp_lu", "tmp_p", "tmp_info"]).format(
                     self.get_paddle_api(),
                     self.kwargs_to_str(new_kwargs),
                     out_v,
@@ -4235,7 +4235,7 @@ class LuMatcher(BaseMatcher):
                     paddle.assign(tmp_lu, {}[0]), paddle.assign(tmp_p, {}[1])
                     """
                 )
-                code = API_TEMPLATE.format(
+                code = rename_template(API_TEMPLATE, ["tmp_lu", "tmp_p"]).format(
                     self.get_paddle_api(), self.kwargs_to_str(new_kwargs), out_v, out_v
                 )
 
@@ -4259,7 +4259,7 @@ class LinalgLuMatcher(BaseMatcher):
                 paddle.assign(P, {}[0]), paddle.assign(L, {}[1]), paddle.assign(U, {}[2])
                 """
             )
-            code = API_TEMPLATE.format(
+            code = rename_template(API_TEMPLATE, ["tmp_lu", "tmp_p", "P", "L", "U"]).format(
                 self.kwargs_to_str(new_kwargs),
                 out_v,
                 out_v,
@@ -4272,7 +4272,7 @@ class LinalgLuMatcher(BaseMatcher):
                 paddle.linalg.lu_unpack(tmp_lu, tmp_p)
                 """
             )
-            code = API_TEMPLATE.format(
+            code = rename_template(API_TEMPLATE, ["tmp_lu", "tmp_p"]).format(
                 self.kwargs_to_str(new_kwargs),
             )
         return code
@@ -4304,7 +4304,7 @@ class QrMatcher(BaseMatcher):
                 """
             )
 
-            code = API_TEMPLATE.format(
+            code = rename_template(API_TEMPLATE, ["tmp_q", "tmp_r"]).format(
                 self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v
             )
             return code
@@ -4333,7 +4333,7 @@ class SvdMatcher(BaseMatcher):
                 paddle.assign(tmp_u, {}[0]), paddle.assign(tmp_s, {}[1]), paddle.assign(tmp_v.conj().t(), {}[2])
                 """
             )
-            code = API_TEMPLATE.format(
+            code = rename_template(API_TEMPLATE, ["tmp_u", "tmp_s", "tmp_v"]).format(
                 self.get_paddle_api(),
                 self.kwargs_to_str(kwargs),
                 out_v,
@@ -4347,7 +4347,7 @@ class SvdMatcher(BaseMatcher):
                 tmp_u, tmp_s, tmp_v.conj().t()
                 """
             )
-            code = API_TEMPLATE.format(
+            code = rename_template(API_TEMPLATE, ["tmp_u", "tmp_s", "tmp_v"]).format(
                 self.get_paddle_api(),
                 self.kwargs_to_str(kwargs),
             )
@@ -4661,7 +4661,7 @@ class TensorInplaceReserveTypeMatcher(BaseMatcher):
                 other_v = "paddle.to_tensor({})".format(other_v)
             kwargs["y"] = other_v
 
-        code = API_TEMPLATE.format(
+        code = rename_template(API_TEMPLATE, ["_x_dtype_"]).format(
             self.paddleClass, self.get_paddle_api(), self.kwargs_to_str(kwargs)
         )
 
@@ -4966,9 +4966,9 @@ class Lu_unpackMatcher(BaseMatcher):
 
         out_v = kwargs.pop("out", "None")
         if out_v != "None":
-            out1 = "out1"
-            out2 = "out2"
-            out3 = "out3"
+            out1 = tmp_1 = get_unique_name("out1")
+            out2 = tmp_2 = get_unique_name("out2")
+            out3 = tmp_3 = get_unique_name("out3")
             if "unpack_ludata" in kwargs and kwargs["unpack_ludata"] == "(False)":
                 out2 = "paddle.paddle.to_tensor([])"
                 out3 = "paddle.paddle.to_tensor([])"
@@ -4976,11 +4976,14 @@ class Lu_unpackMatcher(BaseMatcher):
                 out1 = "paddle.paddle.to_tensor([])"
             API_TEMPLATE = textwrap.dedent(
                 """
-                out1, out2, out3 = {}({})
+                {}, {}, {} = {}({})
                 paddle.assign({}, {}[0]), paddle.assign({}, {}[1]), paddle.assign({}, {}[2])
                 """
             )
             code = API_TEMPLATE.format(
+                tmp_1,
+                tmp_2,
+                tmp_3,
                 self.get_paddle_api(),
                 self.kwargs_to_str(kwargs),
                 out1,
@@ -5010,7 +5013,7 @@ class Linalg_qrMatcher(BaseMatcher):
                     paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1])
                     """
                 )
-                code = API_TEMPLATE.format(
+                code = rename_template(API_TEMPLATE, ["out1", "out2"]).format(
                     self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v
                 )
             else:
@@ -5026,7 +5029,7 @@ class Linalg_qrMatcher(BaseMatcher):
                     paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1])
                     """
                 )
-                code = API_TEMPLATE.format(
+                code = rename_template(API_TEMPLATE, ["out1", "out2"]).format(
                     self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v
                 )
             else:
@@ -5062,7 +5065,7 @@ class HistogramMatcher(BaseMatcher):
                     paddle.assign(out1, {out_v}[0]), paddle.assign(out2, {out_v}[1])
                     """
                 )
-                code = API_TEMPLATE.format(
+                code = rename_template(API_TEMPLATE, ["out1", "out2"]).format(
                     paddleclass=self.paddleClass,
                     kwargs=self.kwargs_to_str(kwargs),
                     kwargs_bin_edges=self.kwargs_to_str(kwargs_bin_edges),
@@ -5075,7 +5078,7 @@ class HistogramMatcher(BaseMatcher):
                     paddle.assign(out1, {out_v}[0]), paddle.assign(out2, {out_v}[1])
                     """
                 )
-                code = API_TEMPLATE.format(
+                code = rename_template(API_TEMPLATE, ["out1", "out2"]).format(
                     kwargs=self.kwargs_to_str(kwargs),
                     kwargs_bin_edges=self.kwargs_to_str(kwargs_bin_edges),
                     out_v=out_v,
@@ -5101,14 +5104,14 @@ class FromBufferMatcher(BaseMatcher):
         API_TEMPLATE = textwrap.dedent(
             """
             import numpy as np
-            buffer = {0}
-            dtype = {1}
-            if isinstance(dtype, paddle.base.core.DataType):
-                dtype = dtype.name.lower()
-            paddle.to_tensor(np.frombuffer(np.array(buffer), dtype=dtype))
+            tmp_buffer = {0}
+            tmp_dtype = {1}
+            if isinstance(tmp_dtype, paddle.base.core.DataType):
+                tmp_dtype = tmp_dtype.name.lower()
+            paddle.to_tensor(np.frombuffer(np.array(tmp_buffer), dtype=tmp_dtype))
             """
         )
-        code = API_TEMPLATE.format(kwargs["buffer"], kwargs["dtype"])
+        code = rename_template(API_TEMPLATE, ["tmp_buffer", "tmp_dtype"]).format(kwargs["buffer"], kwargs["dtype"])
 
         return code
 
diff --git a/paconvert/converter.py b/paconvert/converter.py
index dfd7564..02ae21d 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -36,6 +36,7 @@ from paconvert.utils import (
     is_same_code,
     log_info,
     log_warning,
+    reserve_names,
     to_source,
 )
 from paconvert.global_var import GlobalManager
@@ -378,6 +379,7 @@ class Converter:
                     self.line_count += len(code.splitlines())
                 root = ast.parse(code)
 
+            reserve_names(root)
             self.transfer_node(root, old_path)
             code = to_source(root)
 
diff --git a/paconvert/utils.py b/paconvert/utils.py
index c4fb501..cee712f 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -25,11 +25,16 @@ import isort
 class UniqueNameGenerator:
     def __init__(self):
         self.ids = collections.defaultdict(int)
+        # names used by the code which is being converted
+        self.reserved = set()
 
     def __call__(self, key):
-        counter = self.ids[key]
-        self.ids[key] += 1
-        return "_".join([key, str(counter)])
+        while True:
+            counter = self.ids[key]
+            self.ids[key] += 1
+            name = "_".join([key, str(counter)])
+            if name not in self.reserved:
+                return name
 
 
 Generator = UniqueNameGenerator()
@@ -39,6 +44,24 @@ def get_unique_name(key):
     return Generator(key)
 
 
+def reserve_names(node):
+    Generator.reserved = {
+        getattr(child, field)
+        for child in ast.walk(node)
+        for field in ("id", "arg", "name", "asname", "attr")
+        if isinstance(getattr(child, field, None), str)
+    }
+
+
+def rename_template(template, names):
+    """
+    make the temporary variables of code template unique
+    """
+    for name in names:
+        template = re.sub(r"\b{}\b".format(name), get_unique_name(name), template)
+    return template
+
+
 def _same_ast(left, right):
     # ctx and the 'u' prefix of a str do not matter to the generated source
     dumps = [
-- 
2.43.0


From c4b23cf5c8497afad2ee21dbc03ce90372745b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:36 +0000
Subject: [PATCH 21/70] fix: keep the quotes in variable length arguments

---
 paconvert/api_matcher.py | 18 +++++++++---------
 paconvert/base.py        |  6 ++++++
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 63bc631..eb20638 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -955,7 +955,7 @@ class MakeTMatcher(BaseMatcher):
                 shape = astor.to_source(args[0].value).strip("\n")
             else:
                 shape = self.parse_args(args)[0]
-            kwargs = {"shape": str(shape).replace("'", ""), **kwargs}
+            kwargs = {"shape": self.list_to_str(shape), **kwargs}
 
         if "dtype" not in kwargs:
             kwargs["dtype"] = "float32"
@@ -1014,7 +1014,7 @@ class CreateMatcher(BaseMatcher):
             else:
                 shape = self.parse_args(args)[0]
 
-            kwargs = {"shape": str(shape).replace("'", ""), **kwargs}
+            kwargs = {"shape": self.list_to_str(shape), **kwargs}
 
         code = GenericMatcher.generate_code(self, kwargs)
         return ast.parse(code).body
@@ -1567,7 +1567,7 @@ class TensorMatcher(BaseMatcher):
                         code = "paddle.tensor({})".format(data)
                 return ast.parse(code).body
 
-            shape = str(shape).replace("'", "")
+            shape = self.list_to_str(shape)
 
         if (
             "torch.IntTensor" == self.torch_api
@@ -1796,7 +1796,7 @@ class TensorTileMatcher(BaseMatcher):
             else:
                 perm = self.parse_args(args)[0]
 
-            kwargs = {"repeat_times": str(perm).replace("'", "")}
+            kwargs = {"repeat_times": self.list_to_str(perm)}
 
         code = "{}.tile({})".format(self.paddleClass, self.kwargs_to_str(kwargs))
         return ast.parse(code).body
@@ -1818,7 +1818,7 @@ class TensorNew_Matcher(BaseMatcher):
             else:
                 shape = self.parse_args(args)[0]
 
-            kwargs = {"shape": str(shape).replace("'", ""), **kwargs}
+            kwargs = {"shape": self.list_to_str(shape), **kwargs}
 
         for k in ["layout", "device", "memory_format"]:
             if k in kwargs:
@@ -2040,7 +2040,7 @@ class TensorExpandMatcher(BaseMatcher):
             else:
                 shape = self.parse_args(args)[0]
 
-            kwargs = {"shape": str(shape).replace("'", "")}
+            kwargs = {"shape": self.list_to_str(shape)}
 
         code = "{}.expand({})".format(self.paddleClass, self.kwargs_to_str(kwargs))
         return ast.parse(code).body
@@ -4890,7 +4890,7 @@ class SimpleScalableVarMatcher(BaseMatcher):
                 x = astor.to_source(args[0].value).strip("\n")
             else:
                 x = self.parse_args(args)
-        kwargs = {dest_var_arg_name: str(x).replace("'", "")}
+        kwargs = {dest_var_arg_name: self.list_to_str(x)}
         code = "{}({})".format(self.get_paddle_api(), self.kwargs_to_str(kwargs))
         return ast.parse(code).body
 
@@ -4924,7 +4924,7 @@ class ScalableVarMatcher(BaseMatcher):
             else:
                 dest_var_arg_value = self.parse_args(args)[0]
 
-            kwargs = {dest_var_arg_name: str(dest_var_arg_value).replace("'", "")}
+            kwargs = {dest_var_arg_name: self.list_to_str(dest_var_arg_value)}
 
         code = "{}({})".format(self.get_paddle_api(), self.kwargs_to_str(kwargs))
         return ast.parse(code).body
@@ -4953,7 +4953,7 @@ class ScalableVarMatcher(BaseMatcher):
             else:
                 dest_var_arg_value = self.parse_args(args)[0]
 
-            kwargs = {dest_var_arg_name: str(dest_var_arg_value).replace("'", "")}
+            kwargs = {dest_var_arg_name: self.list_to_str(dest_var_arg_value)}
 
         code = "{}({})".format(self.get_paddle_api(), self.kwargs_to_str(kwargs))
         return ast.parse(code).body
diff --git a/paconvert/base.py b/paconvert/base.py
index 77ad998..2f81709 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -539,6 +539,12 @@ class BaseMatcher(object):
         str_list = []
         for k, v in kwargs.items():
             str_list.append("{}={}".format(k, v))
+    def list_to_str(self, value):
+        # ["d['h']", "1"] -> "[d['h'], 1]"
+        if isinstance(value, list):
+            return "[{}]".format(", ".join(value))
+        return value
+
 
         return ", ".join(str_list)
 
-- 
2.43.0


From 850e15927d0a3deab6743ddb28c2ad216ddba15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:36 +0000
Subject: [PATCH 22/70] fix: convert the APIs inside the object of an attribute

---
 paconvert/base.py                           | 10 ++++++++++
 paconvert/transformer/basic_transformer.py  | 16 ++++------------
 paconvert/transformer/import_transformer.py | 15 +++------------
 3 files changed, 17 insertions(+), 24 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 2f81709..3d4e8c5 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -236,6 +236,16 @@ class BaseTransformer(ast.NodeTransformer):
 
         return True
 
+    def visit_attribute_root(self, node):
+        # model(torch.abs(x)).a.b, only visit 'model(torch.abs(x))'
+        depth = len(self.node_stack)
+        while isinstance(node.value, ast.Attribute):
+            node = node.value
+            self.node_stack.append(node)
+        if not isinstance(node.value, ast.Name):
+            node.value = self.visit(node.value)
+        del self.node_stack[depth:]
+
     def get_full_attr(self, node):
         if isinstance(node, ast.Attribute):
             return self.get_full_attr(node.value) + "." + node.attr
diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 5f3bd2d..7e01400 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -74,18 +74,8 @@ class BasicTransformer(BaseTransformer):
         # 4. (-x).transpose(1, 0)
         # 5. x[0].transpose(1, 0)
         # 6. (x if flag else y).transpose(1, 0)
-        if isinstance(
-            node.value,
-            (
-                ast.Call,
-                ast.Compare,
-                ast.BinOp,
-                ast.UnaryOp,
-                ast.Subscript,
-                ast.Assert,
-                ast.IfExp,
-            ),
-        ):
+        # 7. {torch.float32: 1}.get(x)
+        if not isinstance(node.value, (ast.Attribute, ast.Name)):
             super(BasicTransformer, self).generic_visit(node)
 
         # 6. torch.tensor(features_A).T.cuda()
@@ -103,6 +93,8 @@ class BasicTransformer(BaseTransformer):
                 full_attr = self.get_full_attr_strict(node.value)
                 if "utils.data" not in full_attr:
                     super(BasicTransformer, self).generic_visit(node)
+            else:
+                self.visit_attribute_root(node)
 
         # should be handled by visit_Call
         if isinstance(self.parent_node, ast.Call):
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 0b07ac1..58635fe 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -342,18 +342,7 @@ class ImportTransformer(BaseTransformer):
         eg.
             nn.Module -> torch.nn.Module
         """
-        if isinstance(
-            node.value,
-            (
-                ast.Call,
-                ast.Compare,
-                ast.BinOp,
-                ast.UnaryOp,
-                ast.Subscript,
-                ast.Assert,
-                ast.IfExp,
-            ),
-        ):
+        if not isinstance(node.value, (ast.Attribute, ast.Name)):
             super(ImportTransformer, self).generic_visit(node)
         if isinstance(node.value, ast.Attribute):
             if node.value.attr in [
@@ -369,6 +358,8 @@ class ImportTransformer(BaseTransformer):
                 full_attr = self.get_full_attr_strict(node.value)
                 if "utils.data" not in full_attr:
                     super(ImportTransformer, self).generic_visit(node)
+            else:
+                self.visit_attribute_root(node)
 
         torch_api = self.get_torch_api_from_node(node)
         if torch_api:
-- 
2.43.0


From 80a6ceef4752cca93d4f06f6369818bcbf39cff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:36 +0000
Subject: [PATCH 23/70] fix: keep the escapes in the object of a method call

---
 paconvert/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 3d4e8c5..4f885a9 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -531,11 +531,9 @@ class BaseMatcher(object):
         if self.get_paddle_api():
             new_paddle_api = re.sub(
                 class_str,
-                re.escape(self.paddleClass),
+                lambda match: self.paddleClass,
                 self.get_paddle_api(),
             )
-            # reverse escape
-            new_paddle_api = re.sub(r"\\(.)", r"\1", new_paddle_api)
             self.paddle_api = new_paddle_api
 
     def args_to_str(self, args):
-- 
2.43.0


From e11672000845dabc77dc5f3ae8ed77dfb1e20c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:36 +0000
Subject: [PATCH 24/70] fix: keep every ** argument and the escapes in f-string
 arguments

---
 paconvert/api_matcher.py | 39 +++++++++++++++++++--------------------
 paconvert/base.py        | 27 +++++++++++++++------------
 2 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index eb20638..d107f47 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -17,12 +17,11 @@ isort:skip_file
 """
 
 import ast
-import astor
 import textwrap
 
 from paconvert.base import BaseMatcher
 from paconvert.transformer.custom_op_transformer import CPP_EXTENSION_LIST  # noqa: F401
-from paconvert.utils import get_unique_name, rename_template
+from paconvert.utils import get_unique_name, rename_template, to_source
 from paconvert.global_var import GlobalManager
 
 TypePromoteFunc = textwrap.dedent(
@@ -393,7 +392,7 @@ class ChangePrefixMatcher(BaseMatcher):
 
     def get_paddle_class_nodes(self, func, args, kwargs):
         if self.transformer.mode == "min":
-            self.paddle_api = astor.to_source(func).strip("\n")
+            self.paddle_api = to_source(func).strip("\n")
         else:
             self.parse_func(func)
 
@@ -952,7 +951,7 @@ class MakeTMatcher(BaseMatcher):
             if len(args) > 1 or (len(args) == 1 and isinstance(args[0], ast.Constant)):
                 shape = self.parse_args(args)
             elif isinstance(args[0], ast.Starred):
-                shape = astor.to_source(args[0].value).strip("\n")
+                shape = to_source(args[0].value).strip("\n")
             else:
                 shape = self.parse_args(args)[0]
             kwargs = {"shape": self.list_to_str(shape), **kwargs}
@@ -1010,7 +1009,7 @@ class CreateMatcher(BaseMatcher):
             if len(args) > 1 or (len(args) == 1 and isinstance(args[0], ast.Constant)):
                 shape = self.parse_args(args)
             elif isinstance(args[0], ast.Starred):
-                shape = astor.to_source(args[0].value).strip("\n")
+                shape = to_source(args[0].value).strip("\n")
             else:
                 shape = self.parse_args(args)[0]
 
@@ -1513,7 +1512,7 @@ class TensorMatcher(BaseMatcher):
             if len(args) > 1 or (len(args) == 1 and isinstance(args[0], ast.Constant)):
                 shape = self.parse_args(args)
             elif len(args) == 1 and isinstance(args[0], ast.Starred):
-                shape = astor.to_source(args[0].value).strip("\n")
+                shape = to_source(args[0].value).strip("\n")
             else:
                 if len(args) == 0:
                     data = []
@@ -1792,7 +1791,7 @@ class TensorTileMatcher(BaseMatcher):
             if len(args) > 1 or (len(args) == 1 and isinstance(args[0], ast.Constant)):
                 perm = self.parse_args(args)
             elif isinstance(args[0], ast.Starred):
-                perm = astor.to_source(args[0].value).strip("\n")
+                perm = to_source(args[0].value).strip("\n")
             else:
                 perm = self.parse_args(args)[0]
 
@@ -1814,7 +1813,7 @@ class TensorNew_Matcher(BaseMatcher):
             if len(args) > 1 or (len(args) == 1 and isinstance(args[0], ast.Constant)):
                 shape = self.parse_args(args)
             elif isinstance(args[0], ast.Starred):
-                shape = astor.to_source(args[0].value).strip("\n")
+                shape = to_source(args[0].value).strip("\n")
             else:
                 shape = self.parse_args(args)[0]
 
@@ -2036,7 +2035,7 @@ class TensorExpandMatcher(BaseMatcher):
             if len(args) > 1 or (len(args) == 1 and isinstance(args[0], ast.Constant)):
                 shape = self.parse_args(args)
             elif isinstance(args[0], ast.Starred):
-                shape = astor.to_source(args[0].value).strip("\n")
+                shape = to_source(args[0].value).strip("\n")
             else:
                 shape = self.parse_args(args)[0]
 
@@ -2506,7 +2505,7 @@ class SizeMatcher(BaseMatcher):
         if len(args) == 0:
             code = "()"
         else:
-            code = "tuple({})".format(astor.to_source(args[0]).strip("\n"))
+            code = "tuple({})".format(to_source(args[0]).strip("\n"))
 
         return ast.parse(code).body
 
@@ -3308,9 +3307,9 @@ class TensorResizeMatcher(BaseMatcher):
         args_code_list = []
         for node in args:
             if isinstance(node, ast.Starred):
-                args_code_list.append(astor.to_source(node.value).strip())
+                args_code_list.append(to_source(node.value).strip())
             else:
-                args_code_list.append(astor.to_source(node).strip())
+                args_code_list.append(to_source(node).strip())
         if len(args_code_list) > 1:
             shape_str = f"({', '.join(args_code_list)})"
         elif len(args_code_list) == 1:
@@ -3319,7 +3318,7 @@ class TensorResizeMatcher(BaseMatcher):
             for node in kwargs:
                 if node.arg != "sizes":
                     continue
-                shape_str = astor.to_source(node.value).strip()
+                shape_str = to_source(node.value).strip()
         code = f"{self.get_paddle_api()}({shape_str})"
         return ast.parse(code).body
 
@@ -4887,7 +4886,7 @@ class SimpleScalableVarMatcher(BaseMatcher):
             x = self.parse_args(args)
         else:
             if isinstance(args[0], ast.Starred):
-                x = astor.to_source(args[0].value).strip("\n")
+                x = to_source(args[0].value).strip("\n")
             else:
                 x = self.parse_args(args)
         kwargs = {dest_var_arg_name: self.list_to_str(x)}
@@ -4920,7 +4919,7 @@ class ScalableVarMatcher(BaseMatcher):
             if len(args) > 1 or (len(args) == 1 and isinstance(args[0], ast.Constant)):
                 dest_var_arg_value = self.parse_args(args)
             elif len(args) == 1 and isinstance(args[0], ast.Starred):
-                dest_var_arg_value = astor.to_source(args[0].value).strip("\n")
+                dest_var_arg_value = to_source(args[0].value).strip("\n")
             else:
                 dest_var_arg_value = self.parse_args(args)[0]
 
@@ -4949,7 +4948,7 @@ class ScalableVarMatcher(BaseMatcher):
             if len(args) > 1 or (len(args) == 1 and isinstance(args[0], ast.Constant)):
                 dest_var_arg_value = self.parse_args(args)
             elif len(args) == 1 and isinstance(args[0], ast.Starred):
-                dest_var_arg_value = astor.to_source(args[0].value).strip("\n")
+                dest_var_arg_value = to_source(args[0].value).strip("\n")
             else:
                 dest_var_arg_value = self.parse_args(args)[0]
 
@@ -5439,7 +5438,7 @@ class WeightsMatcher(BaseMatcher):
 
         for i, node in enumerate(args):
             k = args_list[i]
-            v = astor.to_source(node).strip("\n")
+            v = to_source(node).strip("\n")
             new_kwargs[k] = v
 
         for node in kwargs:
@@ -5449,7 +5448,7 @@ class WeightsMatcher(BaseMatcher):
                     return None
                 continue
 
-            v = astor.to_source(node.value).strip("\n")
+            v = to_source(node.value).strip("\n")
             new_kwargs[k] = v
 
         return new_kwargs
@@ -5922,7 +5921,7 @@ class CUDAAndCppExtensionMatcher(GenericMatcher):
 
         for i, node in enumerate(args):
             k = args_list[i]
-            v = astor.to_source(node).strip("\n")
+            v = to_source(node).strip("\n")
             new_kwargs[k] = v
 
         for node in kwargs:
@@ -5931,6 +5930,6 @@ class CUDAAndCppExtensionMatcher(GenericMatcher):
                 if not allow_none:
                     return None
                 continue
-            v = astor.to_source(node.value).strip("\n")
+            v = to_source(node.value).strip("\n")
             new_kwargs[k] = v
         return new_kwargs
diff --git a/paconvert/base.py b/paconvert/base.py
index 4f885a9..e7528d6 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -22,7 +22,7 @@ from itertools import groupby
 import astor
 
 from paconvert.global_var import GlobalManager
-from paconvert.utils import UtilsFileHelper, log_debug
+from paconvert.utils import UtilsFileHelper, log_debug, to_source
 
 
 class BaseTransformer(ast.NodeTransformer):
@@ -479,7 +479,7 @@ class BaseMatcher(object):
             # not support some API args
             if k in unsupport_args:
                 return None
-            v = astor.to_source(node).strip("\n")
+            v = to_source(node).strip("\n")
             # v = ast.unparse(node)
             new_kwargs[k] = v
 
@@ -491,7 +491,7 @@ class BaseMatcher(object):
                     f"Parameter '{k}' specified multiple times - cannot be both positional and keyword argument",
                     self.transformer.file_name,
                 )
-            v = astor.to_source(node.value).strip("\n")
+            v = to_source(node.value).strip("\n")
             # v = ast.unparse(node.value)
             new_kwargs[k] = v
 
@@ -502,7 +502,7 @@ class BaseMatcher(object):
         for node in args:
             # if isinstance(node, ast.Starred) and not allow_starred:
             #    return None
-            ele = astor.to_source(node).strip("\n")
+            ele = to_source(node).strip("\n")
             new_args.append(ele)
 
         return new_args
@@ -519,13 +519,16 @@ class BaseMatcher(object):
             # not support some API args
             if k in unsupport_args:
                 return None
-            v = astor.to_source(node.value).strip("\n")
+            v = to_source(node.value).strip("\n")
+            if k is None and k in new_kwargs:
+                # 'torch.rot90(tensor, **config1, **config2)'
+                v = "{}, **{}".format(new_kwargs[k], v)
             new_kwargs[k] = v
 
         return new_kwargs
 
     def parse_func(self, func):
-        func_str = astor.to_source(func).strip("\n")
+        func_str = to_source(func).strip("\n")
         self.paddleClass = func_str[0 : func_str.rfind(".")]
         class_str = "paddle.Tensor|paddle.nn.Module|paddle.optimizer.Optimizer|paddle.optim.Optimizer|paddle.distribution.Distribution|paddle.distributions.distribution.Distribution|paddle.autograd.function.FunctionCtx|paddle.profiler.Profiler"
         if self.get_paddle_api():
@@ -536,6 +539,12 @@ class BaseMatcher(object):
             )
             self.paddle_api = new_paddle_api
 
+    def list_to_str(self, value):
+        # ["d['h']", "1"] -> "[d['h'], 1]"
+        if isinstance(value, list):
+            return "[{}]".format(", ".join(value))
+        return value
+
     def args_to_str(self, args):
         str_list = []
         for ele in args:
@@ -547,12 +556,6 @@ class BaseMatcher(object):
         str_list = []
         for k, v in kwargs.items():
             str_list.append("{}={}".format(k, v))
-    def list_to_str(self, value):
-        # ["d['h']", "1"] -> "[d['h'], 1]"
-        if isinstance(value, list):
-            return "[{}]".format(", ".join(value))
-        return value
-
 
         return ", ".join(str_list)
 
-- 
2.43.0


From 2df89e0b5480e8447bc5ada6e0f14c290d417ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:42 +0000
Subject: [PATCH 25/70] fix: read the encoding of a source file from its
 declaration

---
 paconvert/converter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 02ae21d..39e3400 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -21,6 +21,7 @@ import logging
 import os
 import re
 import shutil
+import tokenize
 import black
 import isort
 
@@ -373,7 +374,8 @@ class Converter:
             log_info(
                 self.logger, "Start convert file: {} --> {}".format(old_path, new_path)
             )
-            with open(old_path, "r", encoding="UTF-8") as f:
+            # UTF-8 by default, unless there is a BOM or an encoding declaration
+            with tokenize.open(old_path) as f:
                 code = f.read()
                 if self.calculate_speed:
                     self.line_count += len(code.splitlines())
-- 
2.43.0


From e4ae271684315fc6496387d54bd298413d0bef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:55 +0000
Subject: [PATCH 26/70] fix: do not abort on
 torch.utils.data.dataloader.DataLoader in min mode

---
 paconvert/api_mapping.json | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/paconvert/api_mapping.json b/paconvert/api_mapping.json
index 4d9311c..088240a 100644
--- a/paconvert/api_mapping.json
+++ b/paconvert/api_mapping.json
@@ -10153,9 +10153,6 @@
   "torch.utils.data._utils.collate.default_collate": {
     "Matcher": "ChangePrefixMatcher"
   },
-  "torch.utils.data.dataloader.DataLoader": {
-    "Matcher": "ChangePrefixMatcher"
-  },
   "torch.utils.data.dataloader.default_collate": {
     "Matcher": "ChangePrefixMatcher"
   },
-- 
2.43.0


From d41529e9e4078baf3cfe213a7b5ad482e735d555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:05 +0000
Subject: [PATCH 27/70] fix: check every argument when an unsupported one is
 None

also keep return_complex of Tensor.stft when it is positional
---
 paconvert/api_matcher.py |  2 ++
 paconvert/base.py        | 12 ++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index d107f47..67adfeb 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -5521,6 +5521,8 @@ class TensorStftMatcher(BaseMatcher):
         kwargs = self.parse_kwargs(kwargs, allow_none=True)
 
         return_complex = kwargs.pop("return_complex", None)
+        if len(args) == len(self.api_mapping_dict["args_list"]):
+            return_complex = args.pop()
         code = "{}({})".format(
             self.get_paddle_api(), self.args_and_kwargs_to_str(args, kwargs)
         )
diff --git a/paconvert/base.py b/paconvert/base.py
index e7528d6..d1e5a41 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -450,6 +450,14 @@ class BaseMatcher(object):
             # not support 'torch.rot90(tensor, *config)'
             if isinstance(node, ast.Starred) and not allow_starred:
                 return None
+        # None is same as the default value
+        kwargs = [
+            node
+            for node in kwargs
+            if node.arg not in unsupport_args
+            or not isinstance(node.value, ast.Constant)
+            or node.value.value is not None
+        ]
         for node in kwargs:
             k = node.arg
             # not support 'torch.rot90(tensor, **config)'
@@ -457,10 +465,6 @@ class BaseMatcher(object):
                 return None
             # not support some API args
             if k in unsupport_args:
-                if isinstance(node.value, ast.Constant):
-                    if node.value.value is None:
-                        kwargs.remove(node)
-                        continue
                 return None
             if k not in args_list + overload_args_list:
                 return "misidentify"
-- 
2.43.0


From 7ea53a5680b5dac5a850ca7b5d15a436bac7d101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:17 +0000
Subject: [PATCH 28/70] fix: keep bidirectional of RNN/LSTM when it is not a
 constant

---
 paconvert/api_matcher.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 67adfeb..cbe94bf 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -3663,9 +3663,13 @@ class RNNMatcher(BaseMatcher):
         kwargs["time_major"] = f"not {batch_first}"
 
         if "bidirectional" in kwargs:
-            if "(True)" == kwargs["bidirectional"]:
+            bidirectional = kwargs.pop("bidirectional")
+            if "(True)" == bidirectional:
                 kwargs["direction"] = "'bidirect'"
-            kwargs.pop("bidirectional")
+            elif "(False)" != bidirectional:
+                kwargs["direction"] = "'bidirect' if {} else 'forward'".format(
+                    bidirectional
+                )
 
         return GenericMatcher.generate_code(self, kwargs)
 
@@ -3680,9 +3684,11 @@ class RNNBaseMatcher(BaseMatcher):
 
         direction = "'forward'"
         if "bidirectional" in kwargs:
-            if "True" in kwargs["bidirectional"]:
+            bidirectional = kwargs.pop("bidirectional")
+            if "(True)" == bidirectional:
                 direction = "'bidirect'"
-            kwargs.pop("bidirectional")
+            elif "(False)" != bidirectional:
+                direction = "'bidirect' if {} else 'forward'".format(bidirectional)
         kwargs["direction"] = direction
 
         return GenericMatcher.generate_code(self, kwargs)
-- 
2.43.0


From c30e56ec0dfa60451c496e6724e284c6fc7dc6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:17 +0000
Subject: [PATCH 29/70] fix: do not invert some of Tensor.qr

---
 paconvert/api_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index cbe94bf..2e69bc6 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -4298,7 +4298,7 @@ class QrMatcher(BaseMatcher):
         out_v = kwargs.pop("out") if "out" in kwargs else None
 
         if some_v:
-            kwargs["mode"] = "'complete'" if some_v != "(False)" else "'reduced'"
+            kwargs["mode"] = "'reduced' if {} else 'complete'".format(some_v)
 
         if out_v:
             kwargs["x"] = kwargs.pop("input")
-- 
2.43.0


From 2b86d261e3dafe36d67e956c0d865b7d12080f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:17 +0000
Subject: [PATCH 30/70] fix: keep count and offset of frombuffer

---
 paconvert/api_matcher.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 2e69bc6..2563689 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -5113,10 +5113,15 @@ class FromBufferMatcher(BaseMatcher):
             tmp_dtype = {1}
             if isinstance(tmp_dtype, paddle.base.core.DataType):
                 tmp_dtype = tmp_dtype.name.lower()
-            paddle.to_tensor(np.frombuffer(np.array(tmp_buffer), dtype=tmp_dtype))
+            paddle.to_tensor(np.frombuffer(np.array(tmp_buffer), dtype=tmp_dtype{2}))
             """
         )
-        code = rename_template(API_TEMPLATE, ["tmp_buffer", "tmp_dtype"]).format(kwargs["buffer"], kwargs["dtype"])
+        extra_v = "".join(
+            ", {}={}".format(k, kwargs[k]) for k in ["count", "offset"] if k in kwargs
+        )
+        code = rename_template(API_TEMPLATE, ["tmp_buffer", "tmp_dtype"]).format(
+            kwargs["buffer"], kwargs["dtype"], extra_v
+        )
 
         return code
 
-- 
2.43.0


From cbf9e3ebaa7a20a1aa4a9d29667c8da52b277a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:41 +0000
Subject: [PATCH 31/70] fix: convert an imported API wherever its name stands

---
 paconvert/transformer/import_transformer.py |  8 +++++++-
 paconvert/utils.py                          | 18 ++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 58635fe..8547f4f 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -19,7 +19,7 @@ from collections import defaultdict
 
 from paconvert.base import BaseTransformer
 from paconvert.global_var import GlobalManager
-from paconvert.utils import log_info
+from paconvert.utils import get_bound_names, log_info
 
 
 class ImportTransformer(BaseTransformer):
@@ -45,6 +45,7 @@ class ImportTransformer(BaseTransformer):
         self.imports_map[self.file]["may_torch_packages"] = set()
         self.imports_map[self.file]["api_alias_name_map"] = {}
         self.insert_pass_node = set()
+        self.bound_names = get_bound_names(root)
         self.change_prefix_api_map = defaultdict(set)
 
     def visit_Import(self, node):
@@ -399,6 +400,7 @@ class ImportTransformer(BaseTransformer):
             16. super(Dataset).__init__()
             17. functools.partial(torch.abs, x)
             18. partial(torch.abs, x)
+            19. x.to(float32) / [relu] / return Tensor / ...
         """
         maybe_torch = False
         maybe_alias_name = False
@@ -473,6 +475,10 @@ class ImportTransformer(BaseTransformer):
         elif isinstance(self.parent_node, ast.Index) and self.parent_node.value == node:
             maybe_torch = True  # 13. Union[List[str], List[AddedToken]]
 
+        # 19. in any other position, the name must be the imported one
+        if isinstance(node.ctx, ast.Load) and node.id not in self.bound_names:
+            maybe_torch = True
+
         if maybe_torch:
             torch_api = self.get_torch_api_from_node(node)
             if torch_api:
diff --git a/paconvert/utils.py b/paconvert/utils.py
index cee712f..8680da7 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -53,6 +53,24 @@ def reserve_names(node):
     }
 
 
+def get_bound_names(node):
+    """
+    names which are assigned or defined in the code, except by import
+    """
+    names = set()
+    for child in ast.walk(node):
+        if isinstance(child, ast.Name):
+            if not isinstance(child.ctx, ast.Load):
+                names.add(child.id)
+        elif isinstance(child, ast.arg):
+            names.add(child.arg)
+        elif not isinstance(child, ast.alias):
+            for field in ("name", "rest"):
+                if isinstance(getattr(child, field, None), str):
+                    names.add(getattr(child, field))
+    return names
+
+
 def rename_template(template, names):
     """
     make the temporary variables of code template unique
-- 
2.43.0


From 49592c0eb2ecdf4a5b0b909d4c78f1bb388f3e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:41 +0000
Subject: [PATCH 32/70] fix: do not take a variable for an API which is only
 sometimes assigned to it

---
 paconvert/transformer/import_transformer.py |  7 +++++--
 paconvert/utils.py                          | 10 +++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 8547f4f..e23de5f 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -483,8 +483,11 @@ class ImportTransformer(BaseTransformer):
             torch_api = self.get_torch_api_from_node(node)
             if torch_api:
                 if maybe_alias_name:
-                    if len(self.parent_node.targets) == 1 and isinstance(
-                        self.parent_node.targets[0], ast.Name
+                    # the name must not be anything else somewhere in the code
+                    if (
+                        len(self.parent_node.targets) == 1
+                        and isinstance(self.parent_node.targets[0], ast.Name)
+                        and self.bound_names[self.parent_node.targets[0].id] == 1
                     ):
                         self.imports_map[self.file]["api_alias_name_map"][
                             self.parent_node.targets[0].id
diff --git a/paconvert/utils.py b/paconvert/utils.py
index 8680da7..c735a7c 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -55,19 +55,19 @@ def reserve_names(node):
 
 def get_bound_names(node):
     """
-    names which are assigned or defined in the code, except by import
+    names which are assigned or defined in the code (except by import), and how often
     """
-    names = set()
+    names = collections.Counter()
     for child in ast.walk(node):
         if isinstance(child, ast.Name):
             if not isinstance(child.ctx, ast.Load):
-                names.add(child.id)
+                names[child.id] += 1
         elif isinstance(child, ast.arg):
-            names.add(child.arg)
+            names[child.arg] += 1
         elif not isinstance(child, ast.alias):
             for field in ("name", "rest"):
                 if isinstance(getattr(child, field, None), str):
-                    names.add(getattr(child, field))
+                    names[getattr(child, field)] += 1
     return names
 
 
-- 
2.43.0


From 0518d9304a186641bfffa7de14f24ece33894ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:14 +0000
Subject: [PATCH 33/70] fix: do not crash on variables named
 torch_packages/other_packages/...

---
 paconvert/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index d1e5a41..36968a8 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -258,8 +258,9 @@ class BaseTransformer(ast.NodeTransformer):
         full_attr = self.get_full_attr(node)
         attr_list = full_attr.split(".")
         old_module = attr_list[0]
-        if old_module in self.imports_map[self.file]:
-            new_module = self.imports_map[self.file][old_module]
+        new_module = self.imports_map[self.file].get(old_module)
+        # not a variable with the same name as one of the package sets
+        if isinstance(new_module, str):
             attr_list[0] = new_module
             torch_api = ".".join(attr_list)
             return torch_api
@@ -315,8 +316,9 @@ class BaseTransformer(ast.NodeTransformer):
 
         attr_list = full_attr.split(".")
         old_module = attr_list[0]
-        if old_module in self.imports_map[self.file]:
-            new_module = self.imports_map[self.file][old_module]
+        new_module = self.imports_map[self.file].get(old_module)
+        # not a variable with the same name as one of the package sets
+        if isinstance(new_module, str):
             attr_list[0] = new_module
             full_attr = ".".join(attr_list)
         return full_attr, origin_attr
-- 
2.43.0


From b1ea59e5ef3966e7b52f1f591604eccf07d05c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:42 +0000
Subject: [PATCH 34/70] fix: do not take a parameter or variable of a function
 for an imported module

---
 paconvert/base.py  | 26 +++++++++++++++++++++++---
 paconvert/utils.py | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+), 3 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 36968a8..2b3193b 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -22,7 +22,7 @@ from itertools import groupby
 import astor
 
 from paconvert.global_var import GlobalManager
-from paconvert.utils import UtilsFileHelper, log_debug, to_source
+from paconvert.utils import UtilsFileHelper, get_local_names, log_debug, to_source
 
 
 class BaseTransformer(ast.NodeTransformer):
@@ -50,6 +50,7 @@ class BaseTransformer(ast.NodeTransformer):
         self.scope_insert_lines = collections.defaultdict(dict)
         self.logger = logger
         self.black_list = []
+        self.local_names = {}
         self.all_api_map = all_api_map
         self.unsupport_api_map = unsupport_api_map
 
@@ -254,13 +255,32 @@ class BaseTransformer(ast.NodeTransformer):
         else:
             return "None"
 
+    def is_local_name(self, name):
+        # parameter or variable of the function, rather than the imported one, eg:
+        #   from torch.utils import data
+        #   def func(data):
+        #       data.to(device)
+        for i in range(len(self.node_stack) - 2, -1, -1):
+            node = self.node_stack[i]
+            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
+                body = node.body if isinstance(node.body, list) else [node.body]
+                if self.node_stack[i + 1] in body:
+                    if node not in self.local_names:
+                        self.local_names[node] = get_local_names(node)
+                    local, not_local = self.local_names[node]
+                    if name in local:
+                        return True
+                    if name in not_local:
+                        return False
+        return False
+
     def get_torch_api_from_node(self, node):
         full_attr = self.get_full_attr(node)
         attr_list = full_attr.split(".")
         old_module = attr_list[0]
         new_module = self.imports_map[self.file].get(old_module)
         # not a variable with the same name as one of the package sets
-        if isinstance(new_module, str):
+        if isinstance(new_module, str) and not self.is_local_name(old_module):
             attr_list[0] = new_module
             torch_api = ".".join(attr_list)
             return torch_api
@@ -318,7 +338,7 @@ class BaseTransformer(ast.NodeTransformer):
         old_module = attr_list[0]
         new_module = self.imports_map[self.file].get(old_module)
         # not a variable with the same name as one of the package sets
-        if isinstance(new_module, str):
+        if isinstance(new_module, str) and not self.is_local_name(old_module):
             attr_list[0] = new_module
             full_attr = ".".join(attr_list)
         return full_attr, origin_attr
diff --git a/paconvert/utils.py b/paconvert/utils.py
index c735a7c..022df2d 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -71,6 +71,38 @@ def get_bound_names(node):
     return names
 
 
+def get_local_names(func):
+    """
+    names of the parameters and variables of a function/lambda (except imported ones),
+    and names which are imported by it or belong to the outer scope
+    """
+    args = func.args
+    names = {arg.arg for arg in args.posonlyargs + args.args + args.kwonlyargs}
+    names.update(arg.arg for arg in (args.vararg, args.kwarg) if arg)
+    not_local = set()
+    stack = list(func.body) if isinstance(func.body, list) else []
+    while stack:
+        node = stack.pop()
+        if isinstance(node, (ast.Import, ast.ImportFrom)):
+            not_local.update(a.asname or a.name.split(".")[0] for a in node.names)
+        elif isinstance(node, (ast.Global, ast.Nonlocal)):
+            not_local.update(node.names)
+        elif isinstance(node, ast.Name):
+            if not isinstance(node.ctx, ast.Load):
+                names.add(node.id)
+        elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
+            names.add(node.name)
+        # these have their own variables
+        elif not isinstance(
+            node,
+            (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp),
+        ):
+            if isinstance(getattr(node, "name", None), str):  # except/match
+                names.add(node.name)
+            stack.extend(ast.iter_child_nodes(node))
+    return names - not_local, not_local
+
+
 def rename_template(template, names):
     """
     make the temporary variables of code template unique
-- 
2.43.0


From b076b2ae672239be2bf00f4f58332ae87714b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:27 +0000
Subject: [PATCH 35/70] fix: mark the package itself when it is still used
 after conversion

---
 paconvert/converter.py                     | 13 ++++++++++-
 paconvert/transformer/basic_transformer.py | 25 +++++++++++++++++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 39e3400..23c913b 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -33,6 +33,7 @@ from paconvert.transformer.custom_op_transformer import (
 )
 from paconvert.utils import (
     UtilsFileHelper,
+    get_bound_names,
     get_unique_name,
     is_same_code,
     log_info,
@@ -497,10 +498,20 @@ class Converter:
                         if torch_api not in keep_apis:
                             line_nos.add(value.lineno)
                     return
+            # the package itself, eg: getattr(torch, 'abs')
+            elif isinstance(node, ast.Name) and self.mode != "min":
+                if (
+                    isinstance(node.ctx, ast.Load)
+                    and node.id in self.imports_map[file]["torch_packages"]
+                    and node.id not in bound_names
+                ):
+                    line_nos.add(node.lineno)
             for child in ast.iter_child_nodes(node):
                 _visit(child)
 
-        _visit(ast.parse(code))
+        root = ast.parse(code)
+        bound_names = get_bound_names(root)
+        _visit(root)
         return line_nos
 
     def mark_unsupport(self, code, file):
diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 7e01400..0e2df0b 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -22,7 +22,7 @@ from paconvert.api_matcher import *
 from paconvert.global_var import GlobalManager
 from paconvert.base import BaseTransformer
 
-from paconvert.utils import log_debug, log_info
+from paconvert.utils import get_bound_names, log_debug, log_info
 
 
 def iter_fields(node):
@@ -63,6 +63,7 @@ class BasicTransformer(BaseTransformer):
             "args",
             "arg",
         ]
+        self.bound_names = get_bound_names(root)
 
     def visit_Attribute(self, node):
         """
@@ -890,4 +891,26 @@ class BasicTransformer(BaseTransformer):
                     .body[0]
                     .value
                 )
+
+        # the package itself, which is not imported any more, eg: getattr(torch, 'abs')
+        if (
+            self.mode != "min"
+            and isinstance(node.ctx, ast.Load)
+            and node.id in self.imports_map[self.file]["torch_packages"]
+            and node.id not in self.bound_names
+        ):
+            self.torch_api_count += 1
+            if node.id not in self.all_api_map:
+                self.all_api_map[node.id]["paddle_api"] = ""
+                self.all_api_map[node.id]["count"] = 0
+            self.all_api_map[node.id]["count"] += 1
+            self.unsupport_api_map[node.id] += 1
+            log_info(
+                self.logger,
+                "[Not Support] Convert {} to Paddle is not supported currently".format(
+                    node.id
+                ),
+                self.file_name,
+                node.lineno,
+            )
         return node
-- 
2.43.0


From f2b9cb6c8798dae95211ed14812b7918b2e22809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:34 +0000
Subject: [PATCH 36/70] fix: do not crash on an attribute of an API which has
 no single corresponding API

---
 paconvert/transformer/basic_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 0e2df0b..4d60f1a 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -199,7 +199,7 @@ class BasicTransformer(BaseTransformer):
                 #     ...
                 # torch.nn.Module.add = add_module
                 matcher = self.get_api_matcher(".".join(attr_list[:-1]), origin_attr)
-                if matcher:
+                if matcher and matcher.get_paddle_api():
                     torch_api = ".".join(attr_list[:-1])
                     paddle_api = matcher.get_paddle_api()
                     if paddle_api == "unchange":
-- 
2.43.0


From 5eb11fcb62abaa62685c5b8316b1f22271745937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:30 +0000
Subject: [PATCH 37/70] fix: mark 'from torch import *' instead of removing it

---
 paconvert/converter.py                      |  6 ++++++
 paconvert/transformer/import_transformer.py | 11 +++++++++++
 2 files changed, 17 insertions(+)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 23c913b..1155c7e 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -498,6 +498,12 @@ class Converter:
                         if torch_api not in keep_apis:
                             line_nos.add(value.lineno)
                     return
+            # from torch import *
+            elif isinstance(node, ast.ImportFrom) and self.mode != "min":
+                if node.level == 0 and node.names[0].name == "*":
+                    package = node.module.split(".")[0]
+                    if package in self.imports_map[file]["torch_packages"]:
+                        line_nos.add(node.lineno)
             # the package itself, eg: getattr(torch, 'abs')
             elif isinstance(node, ast.Name) and self.mode != "min":
                 if (
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index e23de5f..f09bb1d 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -270,6 +270,17 @@ class ImportTransformer(BaseTransformer):
                 if self.mode == "min":
                     return node
 
+                if any(alias_node.name == "*" for alias_node in node.names):
+                    # the names it provides are unknown, so it has to be marked
+                    if pkg_name in GlobalManager.TORCH_PACKAGE_MAPPING:
+                        torch_api = node.module + ".*"
+                        self.torch_api_count += 1
+                        self.all_api_map[torch_api].setdefault("paddle_api", "")
+                        self.all_api_map[torch_api].setdefault("count", 0)
+                        self.all_api_map[torch_api]["count"] += 1
+                        self.unsupport_api_map[torch_api] += 1
+                    return node
+
                 if (
                     isinstance(self.parent_node, (ast.If, ast.Try))
                     and self.parent_node not in self.insert_pass_node
-- 
2.43.0


From ce25e16c9cece7fcfb12e09cca067ffe10fb4055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:37 +0000
Subject: [PATCH 38/70] fix: report a marked API whose arguments are unexpected

---
 paconvert/transformer/basic_transformer.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 4d60f1a..877a457 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -487,16 +487,18 @@ class BasicTransformer(BaseTransformer):
                         )
                         return None
                 elif node_list == "misidentify":
-                    # This API usage indicate that is is not a Pytorch API
-                    self.torch_api_count -= 1
-                    self.remove_api_count(torch_api)
-                    log_debug(
-                        self.logger,
-                        " Misidentify {}".format(torch_api),
-                        self.file_name,
-                        node.lineno,
-                    )
-                    return node
+                    # This API usage indicate that is is not a Pytorch API,
+                    # but torch.xxx is always, so it is marked and not supported
+                    if not self.start_with_torch(torch_api):
+                        self.torch_api_count -= 1
+                        self.remove_api_count(torch_api)
+                        log_debug(
+                            self.logger,
+                            " Misidentify {}".format(torch_api),
+                            self.file_name,
+                            node.lineno,
+                        )
+                        return node
                 elif node_list == "unchange":
                     self.success_api_count += 1
                     log_debug(
-- 
2.43.0


From 8eb114ed096f2436ffb7fff4130ad7107b023a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:34 +0000
Subject: [PATCH 39/70] fix: do not crash on the unaligned API list of other
 packages

---
 paconvert/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 1155c7e..242247b 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -171,7 +171,7 @@ class Converter:
             for k, v in self.all_api_map.items():
                 if not k.startswith("torch."):
                     unalign_api_map.pop(k)
-                if k in GlobalManager.CHANGE_PREFIX_API:
+                elif k in GlobalManager.CHANGE_PREFIX_API:
                     unalign_api_map.pop(k)
 
             if len(unalign_api_map) == 0:
-- 
2.43.0


From 983506518bf34f4afe8ae2edae7ccc38f464794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:00 +0000
Subject: [PATCH 40/70] fix: do not let the current working directory change
 the order of imports

---
 paconvert/converter.py |  4 ++--
 paconvert/utils.py     | 10 +++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 242247b..b20b4d0 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -23,7 +23,6 @@ import re
 import shutil
 import tokenize
 import black
-import isort
 
 from paconvert.transformer.basic_transformer import BasicTransformer
 from paconvert.transformer.import_transformer import ImportTransformer
@@ -39,6 +38,7 @@ from paconvert.utils import (
     log_info,
     log_warning,
     reserve_names,
+    sort_imports,
     to_source,
 )
 from paconvert.global_var import GlobalManager
@@ -400,7 +400,7 @@ class Converter:
                     )
 
                 try:
-                    new_code = isort.code(code)
+                    new_code = sort_imports(code)
                     if not is_same_code(code, new_code):
                         raise ValueError("the formatted code is not equivalent")
                     code = new_code
diff --git a/paconvert/utils.py b/paconvert/utils.py
index 022df2d..53f34a6 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -44,6 +44,14 @@ def get_unique_name(key):
     return Generator(key)
 
 
+# the modules in the current working directory should not change the order of imports
+ISORT_CONFIG = isort.Config(src_paths=())
+
+
+def sort_imports(code):
+    return isort.code(code, config=ISORT_CONFIG)
+
+
 def reserve_names(node):
     Generator.reserved = {
         getattr(child, field)
@@ -325,7 +333,7 @@ class UtilsFileHelper(object):
 
         # remove redundant import
         try:
-            new_content = isort.code(new_content)
+            new_content = sort_imports(new_content)
         except Exception as e:
             log_info(
                 self.logger,
-- 
2.43.0


From 7c17d01674ef648730e6408612496b228d9c75f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:51 +0000
Subject: [PATCH 41/70] fix: replace only the name of the torch requirement

---
 paconvert/converter.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index b20b4d0..d28f890 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -435,11 +435,16 @@ class Converter:
             log_info(
                 self.logger, "Start convert file: {} --> {}".format(old_path, new_path)
             )
-            with open(old_path, "r", encoding="UTF-8") as old_file:
+            with open(old_path, "r", encoding="UTF-8", newline="") as old_file:
                 code = old_file.read()
-            # only torch itself, not torchvision, pytorch-lightning, ...
-            code = re.sub(r"(?<![\w.-])torch(?![\w.-])", "paddlepaddle-gpu", code)
-            with open(new_path, "w", encoding="UTF-8") as new_file:
+            # only torch itself, not torchvision, pytorch-lightning, pkg[torch], ...
+            code = re.sub(
+                r"^([ \t]*)torch(?![\w.-])",
+                r"\1paddlepaddle-gpu",
+                code,
+                flags=re.MULTILINE,
+            )
+            with open(new_path, "w", encoding="UTF-8", newline="") as new_file:
                 new_file.write(code)
             log_info(
                 self.logger, "Finish convert {} --> {}\n".format(old_path, new_path)
-- 
2.43.0


From 71b9e8cb792665aff2cefc0250b7b30e7f6cdeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:17 +0000
Subject: [PATCH 42/70] fix: keep every import when the utils code is inserted

---
 paconvert/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/paconvert/utils.py b/paconvert/utils.py
index 53f34a6..e049477 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -333,7 +333,15 @@ class UtilsFileHelper(object):
 
         # remove redundant import
         try:
-            new_content = sort_imports(new_content)
+            sorted_content = sort_imports(new_content)
+            if not is_same_code(
+                *(
+                    re.sub("^>>>>>>", "", content, flags=re.MULTILINE)
+                    for content in (new_content, sorted_content)
+                )
+            ):
+                raise ValueError("the formatted code is not equivalent")
+            new_content = sorted_content
         except Exception as e:
             log_info(
                 self.logger,
-- 
2.43.0


From 119ad650459df35d3c22141b99471789e1f4d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:17 +0000
Subject: [PATCH 43/70] fix: do not repeat the attribute of a class in min mode

---
 paconvert/transformer/basic_transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 877a457..90fab53 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -198,7 +198,9 @@ class BasicTransformer(BaseTransformer):
                 # def add_module(self, module):
                 #     ...
                 # torch.nn.Module.add = add_module
-                matcher = self.get_api_matcher(".".join(attr_list[:-1]), origin_attr)
+                matcher = self.get_api_matcher(
+                    ".".join(attr_list[:-1]), origin_attr.rpartition(".")[0]
+                )
                 if matcher and matcher.get_paddle_api():
                     torch_api = ".".join(attr_list[:-1])
                     paddle_api = matcher.get_paddle_api()
-- 
2.43.0


From 2a63928278c00e54686a3aabcd7e86655a9ce9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:17 +0000
Subject: [PATCH 44/70] fix: count the imported API names which min mode keeps

---
 paconvert/transformer/import_transformer.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index f09bb1d..86cdd80 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -439,6 +439,7 @@ class ImportTransformer(BaseTransformer):
                     ]
                     if self.in_min_mode(torch_api):
                         self.change_prefix_api_map[self.file].add(torch_api)
+                        self.count_unchanged_name(torch_api)
                         return node
                     return (
                         ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
@@ -506,11 +507,25 @@ class ImportTransformer(BaseTransformer):
 
                 if self.in_min_mode(torch_api):
                     self.change_prefix_api_map[self.file].add(torch_api)
+                    # 'Tensor(2, 3)' will be counted by its call
+                    if not (
+                        isinstance(self.parent_node, ast.Call)
+                        and self.parent_node.func == node
+                    ):
+                        self.count_unchanged_name(torch_api)
                     return node
 
                 return ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
         return node
 
+    def count_unchanged_name(self, torch_api):
+        torch_api = self.get_canonical_torch_api(torch_api)
+        self.torch_api_count += 1
+        self.success_api_count += 1
+        self.all_api_map[torch_api].setdefault("paddle_api", "")
+        self.all_api_map[torch_api].setdefault("count", 0)
+        self.all_api_map[torch_api]["count"] += 1
+
     def visit_Module(self, node):
         """
         'import torch_package' has been removed already, add 'import paddle_package'
-- 
2.43.0


From 1b4593569a22082538ec5330f763f282d65de9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:05 +0000
Subject: [PATCH 45/70] fix: helper functions used by converted files are
 exported by 'from paddle_utils import *'

---
 paconvert/api_matcher.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 2563689..db5a12f 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -2977,7 +2977,7 @@ class FSoftMinMatcher(BaseMatcher):
     def generate_utils_code(self):
         CODE_TEMPLATE = textwrap.dedent(
             """
-            def _get_softmin_dim(axis: int) -> int:
+            def get_softmin_dim(axis: int) -> int:
                 if axis == 0 or axis == 1 or axis == 3:
                     return 0
                 else:
@@ -2991,7 +2991,7 @@ class FSoftMinMatcher(BaseMatcher):
         kwargs["input"] = f"-{input_v}"
         if "dim" not in kwargs or kwargs["dim"] == "None":
             self.enable_utils_code()
-            kwargs["dim"] = "_get_softmin_dim({}.ndim)".format(input_v)
+            kwargs["dim"] = "get_softmin_dim({}.ndim)".format(input_v)
             return GenericMatcher.generate_code(self, kwargs)
         else:
             return GenericMatcher.generate_code(self, kwargs)
@@ -5181,7 +5181,7 @@ class SetNumInteropThreadsMatcher(BaseMatcher):
         CODE_TEMPLATE = textwrap.dedent(
             """
             import os
-            def _set_num_interop_threads(int):
+            def set_num_interop_threads(int):
                 os.environ['OMP_NUM_THREADS'] = str(int)
             """
         )
@@ -5191,7 +5191,7 @@ class SetNumInteropThreadsMatcher(BaseMatcher):
         self.enable_utils_code()
         API_TEMPLATE = textwrap.dedent(
             """
-            _set_num_interop_threads({})
+            set_num_interop_threads({})
             """
         )
         code = API_TEMPLATE.format(kwargs["int"])
@@ -5204,7 +5204,7 @@ class SetNumThreadsMatcher(BaseMatcher):
         CODE_TEMPLATE = textwrap.dedent(
             """
             import os
-            def _set_num_threads(int):
+            def set_num_threads(int):
                 os.environ['CPU_NUM'] = str(int)
             """
         )
@@ -5214,7 +5214,7 @@ class SetNumThreadsMatcher(BaseMatcher):
         self.enable_utils_code()
         API_TEMPLATE = textwrap.dedent(
             """
-            _set_num_threads({})
+            set_num_threads({})
             """
         )
         code = API_TEMPLATE.format(kwargs["int"])
-- 
2.43.0


From fc695819647b10a6865d40e55d47104fe0539a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:05 +0000
Subject: [PATCH 46/70] fix: helper get_enum imports warnings

---
 paconvert/api_matcher.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index db5a12f..3998094 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -3943,6 +3943,7 @@ class Get_EnumMatcher(BaseMatcher):
     def generate_utils_code(self):
         CODE_TEMPLATE = textwrap.dedent(
             """
+            import warnings
             def get_enum(reduction: str) -> int:
                 if reduction == "none":
                     ret = 0
-- 
2.43.0


From 8f804288239d850aa3dfe5d41c734f0120dd00e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:28 +0000
Subject: [PATCH 47/70] fix: quote the default device of decode_jpeg

---
 paconvert/api_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 3998094..e362ba4 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -5381,7 +5381,7 @@ class VOCDetectionMatcher(BaseMatcher):
 class DecodeJpegMatcher(BaseMatcher):
     def generate_code(self, kwargs):
         kwargs["x"] = kwargs.pop("input")
-        device = kwargs.pop("device", "cpu")
+        device = kwargs.pop("device", '"cpu"')
         API_TEMPLATE = textwrap.dedent(
             """
             {}({}).to({})
-- 
2.43.0


From dafea14361b228d3d31079a24e30b01cfbb74ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:50 +0000
Subject: [PATCH 48/70] fix: do not take a package for audiotools or lose
 'import a.b' because of its name

---
 paconvert/transformer/import_transformer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 86cdd80..f6f0fa2 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -114,7 +114,10 @@ class ImportTransformer(BaseTransformer):
 
             # 3. import form IMPORT_PACKAGE_MAPPING (which means replace api by all)
             for pkg_name in list(GlobalManager.IMPORT_PACKAGE_MAPPING.keys()):
-                if f"{pkg_name}." in alias_node.name or pkg_name == alias_node.name:
+                if (
+                    alias_node.name.startswith(f"{pkg_name}.")
+                    or pkg_name == alias_node.name
+                ):
                     replace_pkg_name = GlobalManager.IMPORT_PACKAGE_MAPPING[pkg_name]
                     if alias_node.asname:
                         # case 1: 'import audiotools as tools' -> 'import paddlespeech.audiotools as tools'
@@ -309,7 +312,7 @@ class ImportTransformer(BaseTransformer):
 
         # 3. import form GlobalManager.IMPORT_PACKAGE_MAPPING (which means replace api by all)
         for pkg_name in list(GlobalManager.IMPORT_PACKAGE_MAPPING.keys()):
-            if f"{pkg_name}." in node.module or pkg_name == node.module:
+            if node.module.startswith(f"{pkg_name}.") or pkg_name == node.module:
                 # case 1: 'from audiotools import AudioSignal' -> 'from paddlespeech.audiotools import AudioSignal'
                 # case 2: 'from audiotools.ml import BaseModel' -> 'from paddlespeech.audiotools.ml import BaseModel'
                 # case 3: 'from audiotools.ml import BaseModel as Model' -> 'from paddlespeech.audiotools.ml import BaseModel as Model'
@@ -346,7 +349,10 @@ class ImportTransformer(BaseTransformer):
             if node.asname:
                 self.imports_map[self.file]["other_packages"].add(node.asname)
             else:
-                self.imports_map[self.file]["other_packages"].add(node.name)
+                # 'import a.b' provides 'a'
+                self.imports_map[self.file]["other_packages"].add(
+                    node.name.split(".")[0]
+                )
 
     def visit_Attribute(self, node):
         """
-- 
2.43.0


From 7cd8f3d5fe6f20cd2aac46277b7ff8343096ad7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:50 +0000
Subject: [PATCH 49/70] fix: do not take own variables named like a package or
 imported name for it

---
 paconvert/base.py                          | 25 ++++++++++++++++++++--
 paconvert/transformer/basic_transformer.py | 17 ++++++++++++---
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 2b3193b..2b448c5 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -22,7 +22,13 @@ from itertools import groupby
 import astor
 
 from paconvert.global_var import GlobalManager
-from paconvert.utils import UtilsFileHelper, get_local_names, log_debug, to_source
+from paconvert.utils import (
+    UtilsFileHelper,
+    get_bound_names,
+    get_local_names,
+    log_debug,
+    to_source,
+)
 
 
 class BaseTransformer(ast.NodeTransformer):
@@ -262,6 +268,15 @@ class BaseTransformer(ast.NodeTransformer):
         #       data.to(device)
         for i in range(len(self.node_stack) - 2, -1, -1):
             node = self.node_stack[i]
+            if isinstance(
+                node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
+            ):
+                # the iterable of the first 'for' is evaluated outside
+                first = node.generators[0]
+                if self.node_stack[i + 1 : i + 3] != [first, first.iter]:
+                    for generator in node.generators:
+                        if name in get_bound_names(generator.target):
+                            return True
             if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                 body = node.body if isinstance(node.body, list) else [node.body]
                 if self.node_stack[i + 1] in body:
@@ -292,8 +307,14 @@ class BaseTransformer(ast.NodeTransformer):
             return "NonTorchClass"
         # x.abs() -> 'abs'
         if isinstance(node, ast.Attribute):
+            # torch.nn.Linear, even if there is 'from other_package import nn'
+            root = self.get_full_attr(node).split(".")[0]
+            is_torch = (
+                root in self.imports_map[self.file]["torch_packages"]
+                and not self.is_local_name(root)
+            )
             for item in self.black_list:
-                if item == node.attr:
+                if item == node.attr and not is_torch:
                     return "NonTorchClass"
             return self.get_full_attr_strict(node.value) + "." + node.attr
         # x.abs() -> 'x'
diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 90fab53..50a0ab8 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -110,7 +110,8 @@ class BasicTransformer(BaseTransformer):
 
         # 1) Torch Package Attribute, include torch third_party
         #   such as torch.Tensor/torch.nn.Module/torch.add...
-        if self.start_with_torch(full_attr):
+        is_local = self.is_local_name(origin_attr.split(".")[0])
+        if self.start_with_torch(full_attr) and not is_local:
             torch_api = full_attr
 
             self.torch_api_count += 1
@@ -456,7 +457,15 @@ class BasicTransformer(BaseTransformer):
         # 1) Torch Package Call, include torch third_party
         #   such as : torch.add(x, y) / torch.add(torch.abs(x), y)
         #   for may_torch_package_list, will in_api_mapping
-        if self.start_with_torch(full_attr) or self.in_api_mapping(full_attr):
+        is_local = self.is_local_name(origin_attr.split(".")[0])
+        is_may_torch = (
+            full_attr.split(".")[0]
+            in self.imports_map[self.file]["may_torch_packages"]
+        )
+        if not is_local and (
+            self.start_with_torch(full_attr)
+            or (is_may_torch and self.in_api_mapping(full_attr))
+        ):
             torch_api = full_attr
             self.torch_api_count += 1
             if torch_api not in self.all_api_map:
@@ -889,7 +898,9 @@ class BasicTransformer(BaseTransformer):
                 "hasattr",
             ]
         ):
-            if node.id in GlobalManager.TORCH_PACKAGE_MAPPING:
+            if node.id in self.imports_map[self.file][
+                "torch_packages"
+            ] and not self.is_local_name(node.id):
                 return (
                     ast.parse(GlobalManager.TORCH_PACKAGE_MAPPING[node.id])
                     .body[0]
-- 
2.43.0


From 32553eb6f81867c1045b637659667cc8800eebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:06 +0000
Subject: [PATCH 50/70] fix: do not mark a variable named like an imported
 package

---
 paconvert/converter.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index d28f890..71089aa 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -33,6 +33,7 @@ from paconvert.transformer.custom_op_transformer import (
 from paconvert.utils import (
     UtilsFileHelper,
     get_bound_names,
+    get_local_names,
     get_unique_name,
     is_same_code,
     log_info,
@@ -490,7 +491,19 @@ class Converter:
         line_nos = set()
         keep_apis = self.change_prefix_api_map[file] if self.mode == "min" else set()
 
-        def _visit(node):
+        def _visit(node, local):
+            # local: names of the variables which may be the same as a package
+            inner = local
+            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
+                names, not_local = get_local_names(node)
+                inner = (local - not_local) | names
+            elif isinstance(
+                node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
+            ):
+                inner = local.union(*[get_bound_names(g.target) for g in node.generators])
+                # the first iterable is evaluated outside
+                _visit(node.generators[0].iter, local)
+
             if isinstance(node, ast.Attribute):
                 attr_list = []
                 value = node
@@ -498,7 +511,10 @@ class Converter:
                     attr_list.append(value.attr)
                     value = value.value
                 if isinstance(value, ast.Name):
-                    if value.id in self.imports_map[file]["torch_packages"]:
+                    if (
+                        value.id in self.imports_map[file]["torch_packages"]
+                        and value.id not in local
+                    ):
                         torch_api = ".".join([value.id] + attr_list[::-1])
                         if torch_api not in keep_apis:
                             line_nos.add(value.lineno)
@@ -517,12 +533,15 @@ class Converter:
                     and node.id not in bound_names
                 ):
                     line_nos.add(node.lineno)
-            for child in ast.iter_child_nodes(node):
-                _visit(child)
+            for field, value in ast.iter_fields(node):
+                for child in value if isinstance(value, list) else [value]:
+                    if isinstance(child, ast.AST):
+                        is_inner = field in ("body", "elt", "key", "value", "generators")
+                        _visit(child, inner if is_inner else local)
 
         root = ast.parse(code)
         bound_names = get_bound_names(root)
-        _visit(root)
+        _visit(root, frozenset())
         return line_nos
 
     def mark_unsupport(self, code, file):
-- 
2.43.0


From d7174bde649a3bccf6d09ad86ef69f7038447ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:56 +0000
Subject: [PATCH 51/70] fix: --exclude_packages accepts any package, including
 einops

---
 paconvert/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paconvert/main.py b/paconvert/main.py
index e9e066a..2517a08 100644
--- a/paconvert/main.py
+++ b/paconvert/main.py
@@ -137,7 +137,9 @@ def main():
     if args.exclude_packages:
         exclude_packages = args.exclude_packages.split(",")
         for package in exclude_packages:
-            GlobalManager.TORCH_PACKAGE_MAPPING.pop(package)
+            GlobalManager.TORCH_PACKAGE_MAPPING.pop(package, None)
+            if package in GlobalManager.MAY_TORCH_PACKAGE_LIST:
+                GlobalManager.MAY_TORCH_PACKAGE_LIST.remove(package)
 
     if args.separate_convert:
         project_num_100 = 0
-- 
2.43.0


From a5b33979e1e8f5dc4ef55779d8ee4b6880e11161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:04 +0000
Subject: [PATCH 52/70] fix: --exclude_packages torch no longer fails on method
 calls

---
 paconvert/transformer/basic_transformer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 50a0ab8..4b135ed 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -287,6 +287,10 @@ class BasicTransformer(BaseTransformer):
                     pass
                     # torch_class_apis.append(".".join(["paddle.Tensor", attr_list[-1]]))
 
+            if "torch" not in GlobalManager.TORCH_PACKAGE_MAPPING:
+                # torch is excluded by user, so are the methods of its classes
+                torch_class_apis = []
+
             for torch_class_api in torch_class_apis:
                 if self.in_attribute_mapping(torch_class_api):
                     self.torch_api_count += 1
@@ -642,6 +646,10 @@ class BasicTransformer(BaseTransformer):
                 )
             """
 
+            if "torch" not in GlobalManager.TORCH_PACKAGE_MAPPING:
+                # torch is excluded by user, so are the methods of its classes
+                torch_class_apis = []
+
             for torch_class_api in torch_class_apis:
                 if self.in_api_mapping(torch_class_api):
                     self.torch_api_count += 1
-- 
2.43.0


From 8425577597ba405adcacd673c6d5bb9c1c936e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:31 +0000
Subject: [PATCH 53/70] fix: keep the content of the project's own
 paddle_utils.py

---
 paconvert/converter.py |  4 ++++
 paconvert/utils.py     | 35 +++++++++++++++++++++++++++++++----
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 71089aa..d66b06e 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -429,6 +429,10 @@ class Converter:
                 code = self.mark_unsupport(code, old_path)
             with open(new_path, "w", encoding="UTF-8") as file:
                 file.write(code)
+            utils_file_helper = UtilsFileHelper()
+            if utils_file_helper.is_dir_mode:
+                if new_path == utils_file_helper.fileName:
+                    utils_file_helper.has_own_file = True
             log_info(
                 self.logger, "Finish convert {} --> {}\n".format(old_path, new_path)
             )
diff --git a/paconvert/utils.py b/paconvert/utils.py
index e049477..8d57f3a 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -184,6 +184,21 @@ def is_same_code(left, right):
     return _digest(left) == _digest(right)
 
 
+def _contains_code(content, code):
+    """
+    Whether all statements of the code are in the content already
+    """
+
+    def _dump(text):
+        text = re.sub("^>>>>>>", "", text, flags=re.MULTILINE)
+        return {ast.dump(stmt) for stmt in ast.parse(text).body}
+
+    try:
+        return _dump(code) <= _dump(content)
+    except SyntaxError:
+        return False
+
+
 class UtilsFileHelper(object):
     _instance = None
     _lock = threading.Lock()
@@ -206,6 +221,8 @@ class UtilsFileHelper(object):
             super().__init__()
             self.fileName = fileName
             self.is_dir_mode = is_dir_mode
+            # the project has its own paddle_utils.py, such as a converted project
+            self.has_own_file = False
             self.code_map = {}
             self.initialized = True
             self.logger = logger
@@ -301,19 +318,29 @@ class UtilsFileHelper(object):
         if not self.code_map:
             return
 
+        existing_content = ""
+        if not self.is_dir_mode or self.has_own_file:
+            with open(self.fileName, "r", encoding="UTF-8") as f:
+                existing_content = f.read()
+
+        codes = list(self.code_map.values())
+        if self.has_own_file:
+            codes = [c for c in codes if not _contains_code(existing_content, c)]
+            if not codes:
+                self.code_map.clear()
+                return
+
         code_lines = []
         if self.is_dir_mode:
             code_lines += ["\nimport paddle\n", self.START_CONTENT, self.INIT_CONTENT]
         else:
             code_lines += [self.START_CONTENT]
-        code_lines += self.code_map.values()
+        code_lines += codes
         code_lines.append(self.END_CONTENT)
         insert_code = "\n".join(code_lines)
 
         # insert the new code into the existing file
-        if not self.is_dir_mode:
-            with open(self.fileName, "r", encoding="UTF-8") as f:
-                existing_content = f.read()
+        if not self.is_dir_mode or self.has_own_file:
 
             # find a position to insert the new code
             lines = existing_content.split("\n")
-- 
2.43.0


From 37e91a9ed21fd1710a6144e7dcd899b34f615e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:29 +0000
Subject: [PATCH 54/70] fix: Tensor.split by a size that does not divide the
 axis

---
 paconvert/api_matcher.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index e362ba4..94c6264 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -3719,10 +3719,7 @@ class TensorSplitMatcher(BaseMatcher):
         CODE_TEMPLATE = textwrap.dedent(
             """
             def _Tensor_split(self, split_size, dim=0):
-                if isinstance(split_size, int):
-                    return paddle.split(self, self.shape[dim] // split_size, dim)
-                else:
-                    return paddle.split(self, split_size, dim)
+                return paddle.compat.split(self, split_size, dim)
 
             setattr(paddle.Tensor, "split", _Tensor_split)
             """
-- 
2.43.0


From 2111f8ceffa5706bff5d329907713f92f8f72c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:03 +0000
Subject: [PATCH 55/70] fix: convert methods of PyTorch results in a file that
 imports paddle too

---
 paconvert/base.py                          | 15 +++++++++++++++
 paconvert/transformer/basic_transformer.py |  6 ++++++
 2 files changed, 21 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index 2b448c5..9db5f32 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -56,6 +56,7 @@ class BaseTransformer(ast.NodeTransformer):
         self.scope_insert_lines = collections.defaultdict(dict)
         self.logger = logger
         self.black_list = []
+        self.paddle_nodes = set()
         self.local_names = {}
         self.all_api_map = all_api_map
         self.unsupport_api_map = unsupport_api_map
@@ -337,6 +338,9 @@ class BaseTransformer(ast.NodeTransformer):
         ):
             node_str = astor.to_source(node).strip("\n")
             for item in self.black_list:
+                # torch.abs(x).add(y), which is paddle.abs(x).add(y) now
+                if item == "paddle" and self.get_root(node) not in self.paddle_nodes:
+                    continue
                 # (array(1.) + array(2.)).abs() ...
                 if re.match(".*[^A-Za-z_]{1}%s\(" % item, node_str):
                     return "NonTorchClass"
@@ -352,6 +356,17 @@ class BaseTransformer(ast.NodeTransformer):
         else:
             return "NonTorchClass"
 
+    def get_root(self, node):
+        # paddle.max(x)[0].abs() -> paddle
+        while not isinstance(node, ast.Name):
+            for field in ("func", "value", "left"):
+                if isinstance(getattr(node, field, None), ast.AST):
+                    node = getattr(node, field)
+                    break
+            else:
+                break
+        return node
+
     def replace_torch_module(self, origin_attr):
         full_attr = origin_attr
 
diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 4b135ed..d302e9c 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -63,6 +63,12 @@ class BasicTransformer(BaseTransformer):
             "args",
             "arg",
         ]
+        # 'paddle' in the origin code, not from converted APIs
+        self.paddle_nodes = {
+            node
+            for node in ast.walk(root)
+            if isinstance(node, ast.Name) and node.id == "paddle"
+        }
         self.bound_names = get_bound_names(root)
 
     def visit_Attribute(self, node):
-- 
2.43.0


From 75455d387d409e3d29c9e99c01c4c217faced6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:25 +0000
Subject: [PATCH 56/70] fix: autograd.Variable of an expression requires grad

---
 paconvert/api_matcher.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 94c6264..a58a155 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -1105,14 +1105,15 @@ class ADVariableMatcher(BaseMatcher):
     def generate_code(self, kwargs):
         API_TEMPLATE = textwrap.dedent(
             """
-            {}.stop_gradient = not {}
-            {}
+            out = {}
+            out.stop_gradient = not {}
+            out
             """
         )
 
         if "requires_grad" in kwargs:
-            return API_TEMPLATE.format(
-                kwargs["data"], kwargs["requires_grad"], kwargs["data"]
+            return rename_template(API_TEMPLATE, ["out"]).format(
+                kwargs["data"], kwargs["requires_grad"]
             )
         return kwargs["data"]
 
-- 
2.43.0


From 888e4c449745b5c5e9ebbca050fc5ce0e794748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:04 +0000
Subject: [PATCH 57/70] fix: report attributes and imported names with the line
 they stand on

The full name that replaces an imported name had no position of its own, so
every use of torch.xxx as a value was logged as line 1.
---
 paconvert/transformer/import_transformer.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index f6f0fa2..030fb85 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -385,7 +385,7 @@ class ImportTransformer(BaseTransformer):
                 self.change_prefix_api_map[self.file].add(torch_api)
                 return node
 
-            return ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
+            return self.full_name_node(torch_api, node)
         return node
 
     def visit_Name(self, node):
@@ -447,9 +447,7 @@ class ImportTransformer(BaseTransformer):
                         self.change_prefix_api_map[self.file].add(torch_api)
                         self.count_unchanged_name(torch_api)
                         return node
-                    return (
-                        ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
-                    )
+                    return self.full_name_node(torch_api, node)
 
                 elif self.parent_node.func.id in [
                     "isinstance",
@@ -521,9 +519,16 @@ class ImportTransformer(BaseTransformer):
                         self.count_unchanged_name(torch_api)
                     return node
 
-                return ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
+                return self.full_name_node(torch_api, node)
         return node
 
+    def full_name_node(self, torch_api, node):
+        # the full name stands where the node did
+        new_node = ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
+        for child in ast.walk(new_node):
+            ast.copy_location(child, node)
+        return new_node
+
     def count_unchanged_name(self, torch_api):
         torch_api = self.get_canonical_torch_api(torch_api)
         self.torch_api_count += 1
-- 
2.43.0


From 2d6746aed58d03c14ba00bebe8838f800e110d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:50 +0000
Subject: [PATCH 58/70] fix: no learnable scale and shift in InstanceNorm
 unless affine is asked for

---
 paconvert/api_mapping.json | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/paconvert/api_mapping.json b/paconvert/api_mapping.json
index 088240a..9248c7f 100644
--- a/paconvert/api_mapping.json
+++ b/paconvert/api_mapping.json
@@ -6515,6 +6515,10 @@
       "track_running_stats": "",
       "device": "",
       "dtype": ""
+    },
+    "paddle_default_kwargs": {
+      "weight_attr": "False",
+      "bias_attr": "False"
     }
   },
   "torch.nn.InstanceNorm2d": {
@@ -6539,6 +6543,10 @@
       "track_running_stats": "",
       "device": "",
       "dtype": ""
+    },
+    "paddle_default_kwargs": {
+      "weight_attr": "False",
+      "bias_attr": "False"
     }
   },
   "torch.nn.InstanceNorm3d": {
@@ -6563,6 +6571,10 @@
       "track_running_stats": "",
       "device": "",
       "dtype": ""
+    },
+    "paddle_default_kwargs": {
+      "weight_attr": "False",
+      "bias_attr": "False"
     }
   },
   "torch.nn.KLDivLoss": {
-- 
2.43.0


From a960ee15e5752a9a79ff9b209dd24f43b5f24342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:50 +0000
Subject: [PATCH 59/70] fix: no overflow in converted torch.special.expit

---
 paconvert/api_matcher.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index a58a155..43cd8fa 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -2676,25 +2676,20 @@ class Exp2Matcher(BaseMatcher):
 
 class ExpitMatcher(BaseMatcher):
     def generate_code(self, kwargs):
-        exp_v = get_unique_name("exp_v")
         if "out" in kwargs and kwargs["out"] != "None":
             API_TEMPLATE = textwrap.dedent(
                 """
-                {} = paddle.exp({})
-                paddle.assign({} / (1 + {}), output={})
+                paddle.assign(paddle.nn.functional.sigmoid({}), output={})
                 """
             )
-            code = API_TEMPLATE.format(
-                exp_v, kwargs["input"], exp_v, exp_v, kwargs["out"]
-            )
+            code = API_TEMPLATE.format(kwargs["input"], kwargs["out"])
         else:
             API_TEMPLATE = textwrap.dedent(
                 """
-                {} = paddle.exp({})
-                {} / (1 + {})
+                paddle.nn.functional.sigmoid({})
                 """
             )
-            code = API_TEMPLATE.format(exp_v, kwargs["input"], exp_v, exp_v)
+            code = API_TEMPLATE.format(kwargs["input"])
 
         return code
 
-- 
2.43.0


From 0bebcb8764237676f3dd36959dfac68f14e35046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:16 +0000
Subject: [PATCH 60/70] fix: variables of nonlocal and of match patterns are
 not the imported names

---
 paconvert/utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/paconvert/utils.py b/paconvert/utils.py
index 8d57f3a..941a1b2 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -87,14 +87,17 @@ def get_local_names(func):
     args = func.args
     names = {arg.arg for arg in args.posonlyargs + args.args + args.kwonlyargs}
     names.update(arg.arg for arg in (args.vararg, args.kwarg) if arg)
-    not_local = set()
+    not_local, enclosing = set(), set()
     stack = list(func.body) if isinstance(func.body, list) else []
     while stack:
         node = stack.pop()
         if isinstance(node, (ast.Import, ast.ImportFrom)):
             not_local.update(a.asname or a.name.split(".")[0] for a in node.names)
-        elif isinstance(node, (ast.Global, ast.Nonlocal)):
+        elif isinstance(node, ast.Global):
             not_local.update(node.names)
+        # variables of an enclosing function
+        elif isinstance(node, ast.Nonlocal):
+            enclosing.update(node.names)
         elif isinstance(node, ast.Name):
             if not isinstance(node.ctx, ast.Load):
                 names.add(node.id)
@@ -105,10 +108,11 @@ def get_local_names(func):
             node,
             (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp),
         ):
-            if isinstance(getattr(node, "name", None), str):  # except/match
-                names.add(node.name)
+            for field in ("name", "rest"):  # except/match
+                if isinstance(getattr(node, field, None), str):
+                    names.add(getattr(node, field))
             stack.extend(ast.iter_child_nodes(node))
-    return names - not_local, not_local
+    return names - not_local - enclosing, not_local
 
 
 def rename_template(template, names):
-- 
2.43.0


From 0762999007a5451389f7f1dd5348595d6f6e3455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:28 +0000
Subject: [PATCH 61/70] fix: replace only the leading package name of a moved
 package

audiotools.core.my_audiotools became paddlespeech.audiotools.core.my_paddlespeech.audiotools.
---
 paconvert/transformer/import_transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 030fb85..137f8a7 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -123,7 +123,7 @@ class ImportTransformer(BaseTransformer):
                         # case 1: 'import audiotools as tools' -> 'import paddlespeech.audiotools as tools'
                         # case 2: 'import audiotools.ml as ml' -> 'import paddlespeech.audiotools.ml as ml'
                         replace_pkg_name = alias_node.name.replace(
-                            pkg_name, replace_pkg_name
+                            pkg_name, replace_pkg_name, 1
                         )
                         log_info(
                             self.logger,
@@ -318,7 +318,7 @@ class ImportTransformer(BaseTransformer):
                 # case 3: 'from audiotools.ml import BaseModel as Model' -> 'from paddlespeech.audiotools.ml import BaseModel as Model'
                 origin_module = node.module
                 node.module = origin_module.replace(
-                    pkg_name, GlobalManager.IMPORT_PACKAGE_MAPPING[pkg_name]
+                    pkg_name, GlobalManager.IMPORT_PACKAGE_MAPPING[pkg_name], 1
                 )
                 log_info(
                     self.logger,
-- 
2.43.0


From 4145e1efc194f98c2d20837efc70ae4146e973fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:08 +0000
Subject: [PATCH 62/70] fix: write any output path into the import of the
 helper file

A path with a quote or a trailing backslash made r'{}' invalid, so every call that needs helper code was left unconverted.
---
 paconvert/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 9db5f32..477da11 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -690,7 +690,7 @@ class BaseMatcher(object):
                 CODE_TEMPLATE = textwrap.dedent(
                     """
                     import sys
-                    sys.path.append(r'{}')
+                    sys.path.append({!r})
                     from paddle_utils import * # noqa: F403
                     """
                 )
-- 
2.43.0


From 40ccdd9f3216ba5e429f305003b667fb04bf4e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 63/70] fix: keep torch.utils.data under another name in min
 mode

import torch.utils as u; u.data.X was written as torch.utils.data.X, which is not imported.
---
 paconvert/transformer/basic_transformer.py  | 4 +++-
 paconvert/transformer/import_transformer.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index d302e9c..f5b9491 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -97,7 +97,9 @@ class BasicTransformer(BaseTransformer):
                 super(BasicTransformer, self).generic_visit(node)
             # 7.  x.data.cuda()  / avoid  torch.utils.data.*
             elif node.value.attr == "data":
-                full_attr = self.get_full_attr_strict(node.value)
+                full_attr = self.get_torch_api_from_node(
+                    node.value
+                ) or self.get_full_attr_strict(node.value)
                 if "utils.data" not in full_attr:
                     super(BasicTransformer, self).generic_visit(node)
             else:
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 137f8a7..8efa515 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -373,7 +373,9 @@ class ImportTransformer(BaseTransformer):
                 super(ImportTransformer, self).generic_visit(node)
             # 7.  x.data.cuda()  / avoid  torch.utils.data.*
             elif node.value.attr == "data":
-                full_attr = self.get_full_attr_strict(node.value)
+                full_attr = self.get_torch_api_from_node(
+                    node.value
+                ) or self.get_full_attr_strict(node.value)
                 if "utils.data" not in full_attr:
                     super(ImportTransformer, self).generic_visit(node)
             else:
-- 
2.43.0


From 0643272f7e5910eea79af7120aaed16ec9a7917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:55 +0000
Subject: [PATCH 64/70] fix: only insert sys.path.append at the imports

A helper statement with an argument such as sys.path[0] was moved before the imports too.
---
 paconvert/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 477da11..7486d04 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -229,7 +229,7 @@ class BaseTransformer(ast.NodeTransformer):
         for node in node_list:
             if isinstance(node, (ast.Import, ast.ImportFrom)):
                 import_nodes.append(node)
-            elif "sys.path" in astor.to_source(node):
+            elif astor.to_source(node).startswith("sys.path.append("):
                 import_nodes.append(node)
             else:
                 other_nodes.append(node)
-- 
2.43.0


From d979ca753783c1e562daeb7a001e775c9ee1c368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:49 +0000
Subject: [PATCH 65/70] fix: do not visit a converted call twice

torch.is_inference(x.f()).q visited x.f() again after its conversion, counting it once more.
---
 paconvert/transformer/basic_transformer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index f5b9491..6695576 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -84,9 +84,8 @@ class BasicTransformer(BaseTransformer):
         # 7. {torch.float32: 1}.get(x)
         if not isinstance(node.value, (ast.Attribute, ast.Name)):
             super(BasicTransformer, self).generic_visit(node)
-
         # 6. torch.tensor(features_A).T.cuda()
-        if isinstance(node.value, ast.Attribute):
+        elif isinstance(node.value, ast.Attribute):
             if node.value.attr in [
                 "T",
                 "real",
-- 
2.43.0


From 1e2dbe5e08e1824dfc2dc9a6db6ef931d8b82dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:49 +0000
Subject: [PATCH 66/70] fix: look for the value None, not for the text, in dim
 and total_steps

An argument such as f(None) was taken for None.
---
 paconvert/api_matcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 43cd8fa..042b16a 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -4129,7 +4129,7 @@ class ConstantLRMatcher(LRSchedulerMatcher):
 
 class OneCycleLRMatcher(LRSchedulerMatcher):
     def generate_code(self, kwargs):
-        if "total_steps" in kwargs and "None" not in kwargs["total_steps"]:
+        if kwargs.get("total_steps", "None") != "None":
             pass
         else:
             steps_per_epoch = kwargs.pop("steps_per_epoch")
@@ -4149,7 +4149,7 @@ class OneCycleLRMatcher(LRSchedulerMatcher):
 
 class RequireDimMatcher(BaseMatcher):
     def generate_code(self, kwargs):
-        if "dim" not in kwargs or "None" in kwargs["dim"]:
+        if kwargs.get("dim", "None") == "None":
             return None
 
         return GenericMatcher.generate_code(self, kwargs)
-- 
2.43.0


From dc120b7fcc4ffa09863b2460c8707e84f02c3ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:41 +0000
Subject: [PATCH 67/70] fix: only turn cuda into gpu in the literals of
 set_device

torch.cpu.set_device(cuda_id) became set_device(gpu_id), a name that does not exist.
---
 paconvert/api_matcher.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 042b16a..03e5f43 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -4742,13 +4742,19 @@ class Device2StrMatcher(Device2StrBaseMatcher):
         # paddle.set_device only recevice str type
         if "device" in kwargs:
             device = kwargs.pop("device")
+            node = ast.parse(device, mode="eval").body
+            values = [node.body, node.orelse] if isinstance(node, ast.IfExp) else [node]
             if device.strip("()").isdigit():
                 # case 1: torch.set_default_device(0) => paddle.device.set_device("gpu:0")
                 device = "'gpu:{}'".format(device.strip("()"))
-            elif "cuda" in device:
+            elif "cuda" in device and all(
+                isinstance(v, ast.Constant) and isinstance(v.value, str) for v in values
+            ):
                 # case 2: torch.set_default_device("cuda:0") => paddle.device.set_device("gpu:0")
                 # case 5: torch.set_default_device(device="cuda:0" if cond else "cpu:0")
-                device = device.replace("cuda", "gpu")
+                for v in values:
+                    v.value = v.value.replace("cuda", "gpu")
+                device = to_source(node).strip("\n")
             else:
                 # case 3: torch.set_default_device("cpu") => paddle.device.set_device("cpu")
                 # case 4: torch.set_default_device(device=0 if cond else 1)
-- 
2.43.0


From ac588fe4905712c4011690a8dc3c3599afa0a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:46 +0000
Subject: [PATCH 68/70] fix: let slogdet keep the data type of its input

---
 paconvert/api_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 03e5f43..4b03485 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -3388,7 +3388,7 @@ class SLogDetMatcher(BaseMatcher):
             API_TEMPLATE = textwrap.dedent(
                 """
                 res = paddle.linalg.slogdet({})
-                res[0], res[1].astype("float32")
+                res[0], res[1].real() if res.is_complex() else res[1]
                 """
             )
             code = rename_template(API_TEMPLATE, ["res"]).format(x_v)
-- 
2.43.0


From c1c8925a1d8364b5c83459390f7e11cfa933c963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:46 +0000
Subject: [PATCH 69/70] fix: functional bilinear with bias=None

---
 paconvert/api_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 4b03485..84728db 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -4163,7 +4163,7 @@ class FunctionalLinearMatcher(BaseMatcher):
 
 class FunctionalBilinearMatcher(BaseMatcher):
     def generate_code(self, kwargs):
-        if "bias" in kwargs:
+        if "bias" in kwargs and kwargs["bias"] != "None":
             kwargs["bias"] = "{}.unsqueeze(0)".format(kwargs["bias"])
 
         kwargs["x1"] = kwargs.pop("input1")
-- 
2.43.0


From 3fb0ffb632082e5bc822b9c1f7802cb5b01aa018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 70/70] fix: take an explicit None for the default in
 histogram, sparse.softmax and make_tensor

---
 paconvert/api_matcher.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 84728db..ef6b999 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -959,10 +959,10 @@ class MakeTMatcher(BaseMatcher):
         if "dtype" not in kwargs:
             kwargs["dtype"] = "float32"
 
-        if "low" not in kwargs:
+        if kwargs.get("low", "None") == "None":
             kwargs["low"] = 0
 
-        if "high" not in kwargs:
+        if kwargs.get("high", "None") == "None":
             kwargs["high"] = 1
 
         if "requires_grad" not in kwargs.keys():
@@ -1670,8 +1670,8 @@ class ScatterReduceMatcher(BaseMatcher):
 class SparseSoftmaxMatcher(BaseMatcher):
     def generate_code(self, kwargs):
         code = ""
-        if "dtype" in kwargs:
-            dtype_v = kwargs.pop("dtype")
+        dtype_v = kwargs.pop("dtype", "None")
+        if dtype_v != "None":
             tmp_val = get_unique_name("tmp_val")
             code = code + "{}=paddle.sparse.cast({}, value_dtype={})\n".format(
                 tmp_val, kwargs["input"], dtype_v
@@ -5050,8 +5050,9 @@ class HistogramMatcher(BaseMatcher):
 
         for k in kwargs_change:
             if k == "range" and k in kwargs:
-                kwargs[kwargs_change[k][0]] = f"{kwargs['range']}[0]"
-                kwargs[kwargs_change[k][1]] = f"{kwargs['range']}[1]"
+                if kwargs["range"] != "None":
+                    kwargs[kwargs_change[k][0]] = f"{kwargs['range']}[0]"
+                    kwargs[kwargs_change[k][1]] = f"{kwargs['range']}[1]"
                 kwargs.pop(k)
 
         kwargs_bin_edges = kwargs.copy()
-- 
2.43.0

