From a868124f7ebf39b4f10ec824eb6bdd77bd8d82c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:33 +0000
Subject: [PATCH 01/76] fix: give `and` a higher precedence than `or` in
 selectors

---
 conda_recipe_manager/parser/selector_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/selector_parser.py b/conda_recipe_manager/parser/selector_parser.py
index e2ba136..ff85fda 100644
--- a/conda_recipe_manager/parser/selector_parser.py
+++ b/conda_recipe_manager/parser/selector_parser.py
@@ -124,8 +124,13 @@ class SelectorParser(IsModifiable):
                 # `NOT` has the highest precedence. For example:
                 #   - `not osx and win` is interpreted as `(not osx) and win`
                 #   - In Python, `not True or True` is interpreted as `(not True) or True`, returning `True`
+                # `AND` has a higher precedence than `OR`. For example:
+                #   - `win and osx or unix` is interpreted as `(win and osx) or unix`
                 if node.value != LogicOp.NOT:
-                    while op_stack and op_stack[-1].value == LogicOp.NOT:
+                    while op_stack and (
+                        op_stack[-1].value == LogicOp.NOT
+                        or (node.value == LogicOp.OR and op_stack[-1].value == LogicOp.AND)
+                    ):
                         postfix_stack.append(op_stack.pop())
                 op_stack.append(node)
                 continue
-- 
2.43.0


From c6dd8c6036de1dc87c6ab3123452760b5be10dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 02/76] fix: parse block scalars that end with the file

---
 conda_recipe_manager/parser/recipe_reader.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 782de49..10db5c3 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -450,16 +450,13 @@ class RecipeReader(IsModifiable):
                 )
                 # Type narrow that we assigned `value` as a `list`
                 assert isinstance(multiline_node.value, list)
-                multiline = lines[line_idx]
-                multiline_indent = num_tab_spaces(multiline)
                 # Add the line to the list once it is verified to be the next line to capture in this node. This means
                 # that `line_idx` will point to the line of the next node, post-processing. Note that blank lines are
-                # valid in multi-line strings, occasionally found in `/about/summary` sections.
-                while multiline_indent > new_indent or multiline == "":
-                    multiline_node.value.append(multiline.strip())
+                # valid in multi-line strings, occasionally found in `/about/summary` sections. A multiline value may also
+                # be the last value in the file.
+                while line_idx < num_lines and (num_tab_spaces(lines[line_idx]) > new_indent or lines[line_idx] == ""):
+                    multiline_node.value.append(lines[line_idx].strip())
                     line_idx += 1
-                    multiline = lines[line_idx]
-                    multiline_indent = num_tab_spaces(multiline)
                 # The previous level is the key to this multi-line value, so we can safely reset it.
                 new_node.children = [multiline_node]
             if new_indent > cur_indent:
-- 
2.43.0


From 551e8597486a4750bac5f51f1f21a1de9262ebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 03/76] fix: do not add another blank line after a section that
 ends with one

---
 conda_recipe_manager/parser/recipe_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 10db5c3..2ed0248 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -684,8 +684,8 @@ class RecipeReader(IsModifiable):
             else:
                 RecipeReader._render_tree(child, depth + depth_delta, lines, node)
             # By tradition, recipes have a blank line after every top-level section, unless they are a comment. Comments
-            # should be left where they are.
-            if depth < 0 and not child.is_comment():
+            # should be left where they are. A multiline value that ends the section may already end with a blank line.
+            if depth < 0 and not child.is_comment() and lines[-1] != "":
                 lines.append("")
 
     def render(self) -> str:
-- 
2.43.0


From b79a625a738aab12b325846c1fe9eb8efc3b778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 04/76] fix: keep the relative indentation of the lines of a
 block scalar

---
 conda_recipe_manager/parser/recipe_reader.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 2ed0248..71ecafb 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -454,8 +454,16 @@ class RecipeReader(IsModifiable):
                 # that `line_idx` will point to the line of the next node, post-processing. Note that blank lines are
                 # valid in multi-line strings, occasionally found in `/about/summary` sections. A multiline value may also
                 # be the last value in the file.
-                while line_idx < num_lines and (num_tab_spaces(lines[line_idx]) > new_indent or lines[line_idx] == ""):
-                    multiline_node.value.append(lines[line_idx].strip())
+                multiline_indent = -1
+                while line_idx < num_lines:
+                    multiline = lines[line_idx].rstrip()
+                    line_indent = num_tab_spaces(multiline)
+                    if multiline and line_indent <= new_indent:
+                        break
+                    # The first line of text sets the indentation of the value. Any spaces past that are part of the text.
+                    if multiline and multiline_indent < 0:
+                        multiline_indent = line_indent
+                    multiline_node.value.append(multiline[min(line_indent, multiline_indent) :])
                     line_idx += 1
                 # The previous level is the key to this multi-line value, so we can safely reset it.
                 new_node.children = [multiline_node]
-- 
2.43.0


From b60f778706e6b0f4791e876d1c521d44c4ff488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:35 +0000
Subject: [PATCH 05/76] fix: keep the key of a block scalar that starts a list
 item

---
 conda_recipe_manager/parser/recipe_reader.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 71ecafb..5d3459c 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -454,11 +454,18 @@ class RecipeReader(IsModifiable):
                 # that `line_idx` will point to the line of the next node, post-processing. Note that blank lines are
                 # valid in multi-line strings, occasionally found in `/about/summary` sections. A multiline value may also
                 # be the last value in the file.
+                #
+                # A key that shares its line with a list mark (`- foo: |`) is found past the mark.
+                multiline_parent = new_node
+                parent_indent = new_indent
+                if new_node.is_collection_element():
+                    multiline_parent = new_node.children[0]
+                    parent_indent += TAB_SPACE_COUNT
                 multiline_indent = -1
                 while line_idx < num_lines:
                     multiline = lines[line_idx].rstrip()
                     line_indent = num_tab_spaces(multiline)
-                    if multiline and line_indent <= new_indent:
+                    if multiline and line_indent <= parent_indent:
                         break
                     # The first line of text sets the indentation of the value. Any spaces past that are part of the text.
                     if multiline and multiline_indent < 0:
@@ -466,7 +473,7 @@ class RecipeReader(IsModifiable):
                     multiline_node.value.append(multiline[min(line_indent, multiline_indent) :])
                     line_idx += 1
                 # The previous level is the key to this multi-line value, so we can safely reset it.
-                new_node.children = [multiline_node]
+                multiline_parent.children = [multiline_node]
             if new_indent > cur_indent:
                 node_stack.append(last_node)
                 # Edge case: The first element of a list of objects that is NOT a 1-line key-value pair needs
@@ -628,12 +635,7 @@ class RecipeReader(IsModifiable):
                 return
 
             if is_first_collection_child:
-                lines.append(
-                    f"{TAB_AS_SPACES * (depth-1)}- {node.value}: "
-                    f"{stringify_yaml(node.children[0].value)}  "
-                    f"{node.children[0].comment}".rstrip()
-                )
-                return
+                spaces = f"{TAB_AS_SPACES * (depth-1)}- "
 
             # Handle multi-line statements. In theory this will probably only ever be strings, but we'll try to account
             # for other types.
@@ -644,7 +646,7 @@ class RecipeReader(IsModifiable):
                 lines.append(f"{spaces}{node.value}: {multi_variant}  {node.comment}".rstrip())
                 for val_line in cast(list[str], node.children[0].value):
                     lines.append(
-                        f"{spaces}{TAB_AS_SPACES}"
+                        f"{TAB_AS_SPACES * (depth+1)}"
                         f"{stringify_yaml(val_line, multiline_variant=multi_variant)}".rstrip()
                     )
                 return
-- 
2.43.0


From 3aedf5eca581e79383d286168d0ff2ab57fcc61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:35 +0000
Subject: [PATCH 06/76] fix: do not take the end of a comment for the start of
 a block scalar

---
 conda_recipe_manager/parser/_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 8379076..33f20e7 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -197,7 +197,7 @@ class Regex:
     SELECTOR: Final[re.Pattern[str]] = re.compile(r"\[.*\]")
     # Detects the 6 common variants (3 |'s, 3 >'s). See this guide for more info:
     #   https://stackoverflow.com/questions/3790454/how-do-i-break-a-string-in-yaml-over-multiple-lines/21699210
-    MULTILINE: Final[re.Pattern[str]] = re.compile(r"^\s*.*:\s+(\||>)(\+|\-)?(\s*|\s+#.*)")
+    MULTILINE: Final[re.Pattern[str]] = re.compile(r"^[^#]*:\s+(\||>)(\+|\-)?(\s*|\s+#.*)$")
     # Group where the "variant" string is identified
     MULTILINE_VARIANT_CAPTURE_GROUP_CHAR: Final[int] = 1
     MULTILINE_VARIANT_CAPTURE_GROUP_SUFFIX: Final[int] = 2
-- 
2.43.0


From 8240df411eb59a97937d2de16b2904ffd5bc3a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:30 +0000
Subject: [PATCH 07/76] fix: comments with an odd indentation do not change the
 structure of a recipe

---
 conda_recipe_manager/parser/recipe_reader.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 5d3459c..2166765 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -433,6 +433,15 @@ class RecipeReader(IsModifiable):
 
             new_indent = num_tab_spaces(line)
             new_node = RecipeReader._parse_line_node(clean_line)
+            # The indentation of a comment has no meaning in YAML. Align it with one of the surrounding nodes, so that a
+            # comment can neither adopt nor orphan another node.
+            if new_node.is_comment():
+                next_line = next((l for l in lines[line_idx:] if l.strip() and not l.strip().startswith("#")), "")
+                max_indent = cur_indent
+                if last_node.is_empty_key() or last_node.is_collection_element():
+                    max_indent += TAB_SPACE_COUNT
+                new_indent = min(new_indent - new_indent % TAB_SPACE_COUNT, max_indent)
+                new_indent = max(new_indent, num_tab_spaces(next_line))
             # If the last node ended (pre-comments) with a |, >, or other multi-line character, reset the value to be a
             # list of the following extra-indented strings
             multiline_re_match = Regex.MULTILINE.match(line)
@@ -452,8 +461,8 @@ class RecipeReader(IsModifiable):
                 assert isinstance(multiline_node.value, list)
                 # Add the line to the list once it is verified to be the next line to capture in this node. This means
                 # that `line_idx` will point to the line of the next node, post-processing. Note that blank lines are
-                # valid in multi-line strings, occasionally found in `/about/summary` sections. A multiline value may also
-                # be the last value in the file.
+                # valid in multi-line strings, occasionally found in `/about/summary` sections. A multiline value may be
+                # the last value in the file.
                 #
                 # A key that shares its line with a list mark (`- foo: |`) is found past the mark.
                 multiline_parent = new_node
@@ -467,7 +476,7 @@ class RecipeReader(IsModifiable):
                     line_indent = num_tab_spaces(multiline)
                     if multiline and line_indent <= parent_indent:
                         break
-                    # The first line of text sets the indentation of the value. Any spaces past that are part of the text.
+                    # The first line of text sets the indentation of the value. Spaces past that are part of the text.
                     if multiline and multiline_indent < 0:
                         multiline_indent = line_indent
                     multiline_node.value.append(multiline[min(line_indent, multiline_indent) :])
-- 
2.43.0


From 8f133fb1b750cede7866b79109f03f299d5da4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 08/76] fix: render nested lists of objects and top-level lists
 to an object

---
 conda_recipe_manager/parser/recipe_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 2166765..4fe295f 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -773,14 +773,14 @@ class RecipeReader(IsModifiable):
                 elem_dict = {}
                 for element in child.children:
                     self._render_object_tree(element, replace_variables, elem_dict)
-                if len(data[key]) == 0:
+                if not data.get(key):
                     data[key] = []
                 data[key].append(elem_dict)
                 continue
 
             # List members accumulate values in a list
             if child.list_member_flag:
-                if key not in data:
+                if not data.get(key):
                     data[key] = []
                 data[key].append(value)
                 continue
-- 
2.43.0


From ac1ed55e0aea1ea89af9b1851d60b7f1531e69f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:00 +0000
Subject: [PATCH 09/76] fix: keep keys without a value in list items and in the
 object form

---
 conda_recipe_manager/parser/recipe_reader.py | 21 ++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 4fe295f..4edd484 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -486,8 +486,12 @@ class RecipeReader(IsModifiable):
             if new_indent > cur_indent:
                 node_stack.append(last_node)
                 # Edge case: The first element of a list of objects that is NOT a 1-line key-value pair needs
-                # to be added to the stack to maintain composition
-                if last_node.is_collection_element() and not last_node.children[0].is_single_key():
+                # to be added to the stack to maintain composition. Lines aligned with that key are its siblings.
+                if (
+                    last_node.is_collection_element()
+                    and not last_node.children[0].is_single_key()
+                    and (new_node.list_member_flag or new_indent > cur_indent + TAB_SPACE_COUNT)
+                ):
                     node_stack.append(last_node.children[0])
             elif new_indent < cur_indent:
                 # Multiple levels of depth can change from line to line, so multiple stack nodes must be pop'd. Example:
@@ -696,7 +700,11 @@ class RecipeReader(IsModifiable):
             # Empty keys can be easily confused for leaf nodes. The difference is these nodes render with a "dangling"
             # `:` mark
             elif child.is_empty_key():
-                lines.append(f"{spaces}{extra_tab}" f"{stringify_yaml(child.value)}:  " f"{child.comment}".rstrip())
+                # The first key of a collection element carries the list mark of the element.
+                prefix = f"{spaces}{extra_tab}"
+                if node.is_collection_element() and child is node.children[0]:
+                    prefix = f"{spaces}- "
+                lines.append(f"{prefix}{stringify_yaml(child.value)}:  {child.comment}".rstrip())
             # Leaf nodes are rendered as members in a list
             elif child.is_leaf():
                 lines.append(f"{spaces}{extra_tab}- " f"{stringify_yaml(child.value)}  " f"{child.comment}".rstrip())
@@ -749,6 +757,11 @@ class RecipeReader(IsModifiable):
             return
 
         key = cast(str, node.value)
+        # Keys that point to nothing (but comments) are interpreted to point to `None`
+        if node.key_flag and all(child.is_comment() for child in node.children):
+            data[key] = None
+            return
+
         for child in node.children:
             # Ignore comment-only lines
             if child.is_comment():
@@ -764,7 +777,7 @@ class RecipeReader(IsModifiable):
 
             # Empty keys are interpreted to point to `None`
             if child.is_empty_key():
-                data[key][child.value] = None
+                data.setdefault(key, {})[child.value] = None
                 continue
 
             # Collection nodes are skipped as they are placeholders. However, their children are rendered recursively
-- 
2.43.0


From 58fc6a0bcd39136391c7982c2c86b38b77df971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:40 +0000
Subject: [PATCH 10/76] fix: do not render a lone key without a value as the
 value of its parent

---
 conda_recipe_manager/parser/_node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_node.py b/conda_recipe_manager/parser/_node.py
index 1ea2666..598f8a3 100644
--- a/conda_recipe_manager/parser/_node.py
+++ b/conda_recipe_manager/parser/_node.py
@@ -155,7 +155,9 @@ class Node:
 
         :returns: True if the node represents a single key. False otherwise.
         """
-        return self.key_flag and len(self.children) == 1 and self.children[0].is_leaf()
+        return (
+            self.key_flag and len(self.children) == 1 and self.children[0].is_leaf() and not self.children[0].key_flag
+        )
 
     def is_collection_element(self) -> bool:
         """
-- 
2.43.0


From 527bc16b6ac7b3bf51f7c35fe27ba636b2c61c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:46 +0000
Subject: [PATCH 11/76] fix: quote strings that YAML reads as something else

---
 conda_recipe_manager/parser/_utils.py | 32 ++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 1f37fc8..a3c2748 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -9,6 +9,8 @@ import re
 from collections.abc import Iterable
 from typing import Final, cast
 
+import yaml
+
 from conda_recipe_manager.parser._types import (
     RECIPE_MANAGER_SUB_MARKER,
     ROOT_NODE_VALUE,
@@ -19,6 +21,12 @@ from conda_recipe_manager.parser._types import (
 from conda_recipe_manager.parser.types import TAB_AS_SPACES, MultilineVariant, NodeValue
 from conda_recipe_manager.types import H, JsonType, SentinelType
 
+# Import guard: Fallback to `SafeLoader` if `CSafeLoader` isn't available
+try:
+    from yaml import CSafeLoader as SafeLoader
+except ImportError:
+    from yaml import SafeLoader  # type: ignore[assignment]
+
 # Commonly used special characters that we need to ensure get quoted when rendered as a YAML string.
 # NOTE: `#`, `|`, `{`, `}`, `>`, and `<` are left out of this list as in our use case, they have specifics meaning that
 #       are already handled in the parser.
@@ -146,6 +154,25 @@ def quote_special_strings(s: str, multiline_variant: MultilineVariant = Multilin
     return s
 
 
+def _is_misread_as_plain(s: str) -> bool:
+    """
+    Determines if a string has to be quoted for YAML to read the same string back. Without quotes, YAML may reject the
+    string, drop parts of it or change its type (`foo: bar`, `true`, ...). By convention, numeric strings and strings
+    that use quotes in JINJA statements are left as they are.
+
+    :param s: String to check
+    :returns: True if the string can't be rendered without quotes. False otherwise.
+    """
+    if Regex.JINJA_FUNCTION_MATCH.search(s) or (cast(list[str], Regex.JINJA_V0_SUB.findall(s)) and '"' in s):
+        return False
+    plain = Regex.JINJA_V0_SUB.sub(RECIPE_MANAGER_SUB_MARKER, s)
+    try:
+        value = cast(JsonType, yaml.load(plain, Loader=SafeLoader))
+    except Exception:  # pylint: disable=broad-exception-caught
+        return True
+    return value != plain and (isinstance(value, bool) or not isinstance(value, (int, float)))
+
+
 def stringify_yaml(
     val: NodeValue | SentinelType, multiline_variant: MultilineVariant = MultilineVariant.NONE
 ) -> NodeValue:
@@ -171,7 +198,10 @@ def stringify_yaml(
         return "false"
     # Handle special string quote cases
     if isinstance(val, str):
-        return quote_special_strings(val, multiline_variant)
+        quoted = quote_special_strings(val, multiline_variant)
+        if multiline_variant == MultilineVariant.NONE and quoted == val and _is_misread_as_plain(val):
+            return json.dumps(val)
+        return quoted
     return val
 
 
-- 
2.43.0


From bdd4e910f8269fa93b9cba942e57f607704645e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:06 +0000
Subject: [PATCH 12/76] fix: do not take a number sign in a quoted string for a
 comment

---
 conda_recipe_manager/parser/recipe_reader.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 4edd484..163d511 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -153,10 +153,16 @@ class RecipeReader(IsModifiable):
             return Node(comment=s)
         # There is a comment at the end of the line if a `#` symbol is found with leading whitespace before it. If it is
         # "touching" a character on the left-side, it is just part of a string.
-        comment_re_result = Regex.DETECT_TRAILING_COMMENT.search(s)
-        if comment_re_result is not None:
+        for comment_re_result in Regex.DETECT_TRAILING_COMMENT.finditer(s):
+            # A `#` symbol found inside of a quoted string is a part of the value.
+            try:
+                if RecipeReader._parse_yaml(s[: comment_re_result.start()]) != output:
+                    continue
+            except yaml.YAMLError:
+                continue
             # Group 0 is the whole match, Group 1 is the leading whitespace, Group 2 locates the `#`
             comment = s[comment_re_result.start(2) :]
+            break
 
         # If a dictionary is returned, we have a line containing a key and potentially a value. There should only be 1
         # key/value pairing in 1 line. Nodes representing keys should be flagged for handling edge cases.
-- 
2.43.0


From 7f558abd214460ef49c24e30f6b47691fa59e99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 13/76] fix: return strings as they are found in a recipe

---
 conda_recipe_manager/parser/recipe_reader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 163d511..592c505 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -885,6 +885,7 @@ class RecipeReader(IsModifiable):
             return default
 
         return_value: JsonType = None
+        is_primitive = False
         # Handle unpacking of the last key-value set of nodes.
         if node.is_single_key() and not node.is_root():
             if node.children[0].multiline_variant != MultilineVariant.NONE:
@@ -898,9 +899,11 @@ class RecipeReader(IsModifiable):
                     return self._render_jinja_vars(multiline_str)
                 return cast(JsonType, yaml.load(multiline_str, Loader=SafeLoader))
             return_value = cast(Primitives, node.children[0].value)
+            is_primitive = True
         # Leaf nodes can return their value directly
         elif node.is_leaf():
             return_value = cast(Primitives, node.value)
+            is_primitive = True
         else:
             # NOTE: Traversing the tree and generating our own data structures will be more efficient than rendering and
             # leveraging the YAML parser, BUT this method re-uses code and is easier to maintain.
@@ -908,6 +911,11 @@ class RecipeReader(IsModifiable):
             RecipeReader._render_tree(node, -1, lst)
             return_value = "\n".join(lst)
 
+        # Strings found in the file do not need to be interpreted again, unless there are JINJA statements to render.
+        if is_primitive and isinstance(return_value, str) and not (sub_vars and "{{" in return_value):
+            single_list_member = len(node.children) == 1 and node.children[0].list_member_flag
+            return [return_value] if single_list_member else return_value
+
         # Collection types are transformed into strings above and will need to be transformed into a proper data type.
         # `_parse_yaml()` will also render JINJA variables for us, if requested.
         if isinstance(return_value, str):
-- 
2.43.0


From ed7182c35fc66a58b6b7cfd98af767ed353a25e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:23 +0000
Subject: [PATCH 14/76] fix: quote numeric strings that do not survive as a
 number

---
 conda_recipe_manager/parser/_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index a3c2748..c25cb8b 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -157,8 +157,8 @@ def quote_special_strings(s: str, multiline_variant: MultilineVariant = Multilin
 def _is_misread_as_plain(s: str) -> bool:
     """
     Determines if a string has to be quoted for YAML to read the same string back. Without quotes, YAML may reject the
-    string, drop parts of it or change its type (`foo: bar`, `true`, ...). By convention, numeric strings and strings
-    that use quotes in JINJA statements are left as they are.
+    string, drop parts of it or change its type (`foo: bar`, `true`, ...). By convention, numeric strings that survive
+    as a number (`921`, but not `1.10`) and strings that use quotes in JINJA statements are left as they are.
 
     :param s: String to check
     :returns: True if the string can't be rendered without quotes. False otherwise.
@@ -170,7 +170,9 @@ def _is_misread_as_plain(s: str) -> bool:
         value = cast(JsonType, yaml.load(plain, Loader=SafeLoader))
     except Exception:  # pylint: disable=broad-exception-caught
         return True
-    return value != plain and (isinstance(value, bool) or not isinstance(value, (int, float)))
+    if isinstance(value, (int, float)) and not isinstance(value, bool):
+        return str(value) != plain
+    return value != plain
 
 
 def stringify_yaml(
-- 
2.43.0


From f22e7edf557c90ceb18fdda3e41e29d3dd670b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:50 +0000
Subject: [PATCH 15/76] fix: do not read dependencies from empty sections

---
 conda_recipe_manager/parser/recipe_reader.py      | 3 +++
 conda_recipe_manager/parser/recipe_reader_deps.py | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 592c505..84b16f2 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1046,6 +1046,9 @@ class RecipeReader(IsModifiable):
                 # Relying on `get_value()` ensures that we will only examine literal values and ignore comments
                 # in-between dependencies.
                 dependencies = cast(list[str], self.get_value(section_path, []))
+                # Sections may be empty
+                if not isinstance(dependencies, list):
+                    continue
                 for i in range(len(dependencies)):
                     paths.append(f"{section_path}/{i}")
 
diff --git a/conda_recipe_manager/parser/recipe_reader_deps.py b/conda_recipe_manager/parser/recipe_reader_deps.py
index feefba4..c2b2187 100644
--- a/conda_recipe_manager/parser/recipe_reader_deps.py
+++ b/conda_recipe_manager/parser/recipe_reader_deps.py
@@ -123,10 +123,13 @@ class RecipeReaderDeps(RecipeReader):
                 self.get_value(RecipeReader.append_to_path(path, "/requirements"), default={}, sub_vars=True),
             )
             dep_map[package] = []
+            # Sections may be empty
+            if not isinstance(requirements, dict):
+                continue
             for section_str, deps in requirements.items():
                 section = str_to_dependency_section(section_str)
                 # Unrecognized sections will be skipped as "junk" data
-                if section is None:
+                if section is None or not isinstance(deps, list):
                     continue
 
                 for i, dep in enumerate(deps):
-- 
2.43.0


From 0b55a672c9e3b8f35626a2eda0dd303bb1f848be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 16/76] fix: do not take a value for a part of a path

---
 conda_recipe_manager/parser/_traverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_traverse.py b/conda_recipe_manager/parser/_traverse.py
index f32167c..d888f2f 100644
--- a/conda_recipe_manager/parser/_traverse.py
+++ b/conda_recipe_manager/parser/_traverse.py
@@ -90,7 +90,7 @@ def _traverse_recurse(node: Node, path: StrStack) -> Optional[Node]:
 
     for child in node.children:
         # Remember: for nodes that represent part of the path, the "value" stored in the node is part of the path-name.
-        if child.value == path_part:
+        if child.key_flag and child.value == path_part:
             path.pop()
             return _traverse_recurse(child, path)
     # Path not found
-- 
2.43.0


From 807468e231bece33b25fd1de8e820e2987b48a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 17/76] fix: patch-add objects before the list item at the
 index given, reject indices out of range

---
 conda_recipe_manager/parser/_traverse.py     | 10 ++++------
 conda_recipe_manager/parser/recipe_parser.py |  2 +-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/conda_recipe_manager/parser/_traverse.py b/conda_recipe_manager/parser/_traverse.py
index d888f2f..a0ac147 100644
--- a/conda_recipe_manager/parser/_traverse.py
+++ b/conda_recipe_manager/parser/_traverse.py
@@ -144,12 +144,10 @@ def traverse_with_index(root: Node, path: StrStack) -> tuple[Optional[Node], int
 
     node = traverse(root, path)
     if node is not None and virt_idx >= 0:
-        phys_idx = remap_child_indices_virt_to_phys(node.children)[virt_idx]
-
-        # If the node in a list is a "Collection Element", we want return that node and not the parent that contains
-        # the list. Collection Nodes are abstract containers that will contain the rest of
-        if node.children[phys_idx].is_collection_element():
-            return node.children[phys_idx], INVALID_IDX, INVALID_IDX
+        idx_map = remap_child_indices_virt_to_phys(node.children)
+        # The caller is responsible for rejecting indices that are out-of-bounds.
+        if virt_idx < len(idx_map):
+            phys_idx = idx_map[virt_idx]
 
     return node, virt_idx, phys_idx
 
diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 19ce469..1c768e4 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -314,7 +314,7 @@ class RecipeParser(RecipeReader):
         # NOTE: Appending to a non-existent list is effectively adding a second level and disallowed by the RFC.
         if node is None and not append_to_list:
             path_to_create = path_stack_copy.pop(0)
-            node, virt_idx, phys_idx = traverse_with_index(self._root, path_stack_copy)
+            node = traverse(self._root, path_stack_copy)
 
         return node, virt_idx, phys_idx, path_to_create, append_to_list
 
-- 
2.43.0


From feb36f238986d9f297d8b027941b7a020178b7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 18/76] fix: patch-add at the end of a list by its index

---
 conda_recipe_manager/parser/recipe_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 1c768e4..0959fbf 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -315,6 +315,11 @@ class RecipeParser(RecipeReader):
         if node is None and not append_to_list:
             path_to_create = path_stack_copy.pop(0)
             node = traverse(self._root, path_stack_copy)
+        # As per the RFC, an index that equals the number of elements in the list also appends to the list.
+        elif node is not None and virt_idx > INVALID_IDX:
+            idx_map = remap_child_indices_virt_to_phys(node.children)
+            if virt_idx == len(idx_map) and idx_map and node.children[idx_map[0]].list_member_flag:
+                return node, INVALID_IDX, INVALID_IDX, path_to_create, True
 
         return node, virt_idx, phys_idx, path_to_create, append_to_list
 
-- 
2.43.0


From 68e37350097d47cb8e0a68e50ac7655807da315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 19/76] fix: search-and-patch tries every match and leaves the
 given patch as it was

---
 conda_recipe_manager/parser/recipe_parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 0959fbf..ff6475f 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -586,8 +586,7 @@ class RecipeParser(RecipeReader):
         paths = self.search(regex, include_comment)
         summation: bool = True
         for path in paths:
-            patch["path"] = path
-            summation = summation and self.patch(patch)
+            summation = self.patch({**patch, "path": path}) and summation
         return summation
 
     def diff(self) -> str:
-- 
2.43.0


From 4a8922af8ecf82adba7062db2d6acc9a3f5a0c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:45 +0000
Subject: [PATCH 20/76] fix: return a list for a list with one number, flag or
 null

---
 conda_recipe_manager/parser/recipe_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 84b16f2..5dfc27d 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -926,6 +926,8 @@ class RecipeReader(IsModifiable):
             if not isinstance(parsed_value, list) and len(node.children) == 1 and node.children[0].list_member_flag:
                 return [parsed_value]
             return parsed_value
+        if len(node.children) == 1 and node.children[0].list_member_flag:
+            return [return_value]
         return return_value
 
     def find_value(self, value: Primitives) -> list[str]:
-- 
2.43.0


From 33b3e693d3e1332c962fce6602b7011882af94d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 21/76] fix: do not put quotes in strings with Jinja statements
 and quotes

---
 conda_recipe_manager/parser/recipe_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 5dfc27d..462b819 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -71,7 +71,7 @@ class RecipeReader(IsModifiable):
         """
         # Add the substitutions back in
         if isinstance(data, str):
-            data = modifier(quote_special_strings(data))
+            data = modifier(data)
         if isinstance(data, dict):
             for key in data.keys():
                 data[key] = RecipeReader._parse_yaml_recursive_sub(cast(str, data[key]), modifier)
@@ -98,8 +98,9 @@ class RecipeReader(IsModifiable):
         def _sub_jinja(out: JsonType) -> JsonType:
             if parser is None:
                 return out
+            # Rendered strings are interpreted by the YAML parser again, so their quotes need to be added back.
             return RecipeReader._parse_yaml_recursive_sub(
-                out, parser._render_jinja_vars  # pylint: disable=protected-access
+                out, lambda d: parser._render_jinja_vars(quote_special_strings(d))  # pylint: disable=protected-access
             )
 
         # Our first attempt handles special string cases that require quotes that the YAML parser drops. If that fails,
-- 
2.43.0


From 938b1977861a85379116a63078af881c179b11a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 22/76] fix: do not take the text of a quoted string for the
 start of a block scalar

---
 conda_recipe_manager/parser/_types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 33f20e7..331d749 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -197,7 +197,10 @@ class Regex:
     SELECTOR: Final[re.Pattern[str]] = re.compile(r"\[.*\]")
     # Detects the 6 common variants (3 |'s, 3 >'s). See this guide for more info:
     #   https://stackoverflow.com/questions/3790454/how-do-i-break-a-string-in-yaml-over-multiple-lines/21699210
-    MULTILINE: Final[re.Pattern[str]] = re.compile(r"^[^#]*:\s+(\||>)(\+|\-)?(\s*|\s+#.*)$")
+    MULTILINE: Final[re.Pattern[str]] = re.compile(
+        # The key may be quoted. The marker can't be a part of a quoted value.
+        r"^[\s-]*(?:\"[^\"]*\"|'[^']*'|(?:[^#:'\"]|:(?=\S))*)\s*:\s+(\||>)(\+|\-)?(\s*|\s+#.*)$"
+    )
     # Group where the "variant" string is identified
     MULTILINE_VARIANT_CAPTURE_GROUP_CHAR: Final[int] = 1
     MULTILINE_VARIANT_CAPTURE_GROUP_SUFFIX: Final[int] = 2
-- 
2.43.0


From c92d4c4e309b4be83b92f6129b2eb2e8fe74674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:25 +0000
Subject: [PATCH 23/76] fix: get the value of a list element that is an object

---
 conda_recipe_manager/parser/recipe_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 462b819..078b356 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -909,7 +909,9 @@ class RecipeReader(IsModifiable):
             # NOTE: Traversing the tree and generating our own data structures will be more efficient than rendering and
             # leveraging the YAML parser, BUT this method re-uses code and is easier to maintain.
             lst: list[str] = []
-            RecipeReader._render_tree(node, -1, lst)
+            # The keys of a list element stand on their own, they are not rendered as a member of the list.
+            base_node = Node(value=ROOT_NODE_VALUE, children=node.children) if node.is_collection_element() else node
+            RecipeReader._render_tree(base_node, -1, lst)
             return_value = "\n".join(lst)
 
         # Strings found in the file do not need to be interpreted again, unless there are JINJA statements to render.
-- 
2.43.0


From d1763901cccc7cfbcb97a56701d17707cc84e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:22 +0000
Subject: [PATCH 24/76] fix: patch-add only adds members to objects and appends
 to lists

---
 conda_recipe_manager/parser/recipe_parser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index ff6475f..051c895 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -341,6 +341,17 @@ class RecipeParser(RecipeReader):
         if not RecipeParser._is_valid_patch_node(node, virt_idx):
             return False
 
+        # As per the RFC, members can only be added to objects and elements can only be appended to lists. Keys without
+        # a value may become either.
+        members = [child for child in node.children if not child.is_comment()]
+        # Empty collections are stored as a value, which is replaced by the first element or member.
+        if len(members) == 1 and members[0].is_leaf() and members[0].value == ([] if append_to_list else {}):
+            node.children.remove(members.pop())
+        if append_to_list and not all(child.list_member_flag for child in members):
+            return False
+        if path_to_create and not all(child.key_flag for child in members):
+            return False
+
         # If we couldn't find 1 level in the path, ensure that we re-insert that as the "root" of the sub-tree we are
         # about to create.
         if path_to_create:
-- 
2.43.0


From a4bbef4828c3ace05016ff6444e576a831c9238f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:22 +0000
Subject: [PATCH 25/76] fix: a patch-move that can't be completed does not lose
 the value

---
 conda_recipe_manager/parser/recipe_parser.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 051c895..cd1a3ee 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -19,6 +19,7 @@ from __future__ import annotations
 
 import difflib
 import re
+from copy import deepcopy
 from typing import Final, Optional, TypeGuard, cast
 
 from jsonschema import validate as schema_validate
@@ -464,12 +465,22 @@ class RecipeParser(RecipeReader):
         except KeyError:
             return False
 
+        # As per the RFC, a value can't be moved into one of its children.
+        path_stack_from: Final[StrStack] = str_to_stack_path(value_from)
+        if path_stack[-len(path_stack_from) :] == path_stack_from:
+            return False
+
         # Validate that `add` will succeed before we `remove` anything
         node, virt_idx, _, _, _ = self._patch_add_find_target(path_stack.copy())
         if not RecipeParser._is_valid_patch_node(node, virt_idx):
             return False
 
-        return self._patch_remove(str_to_stack_path(value_from)) and self._patch_add(path_stack, original_value)
+        # The position to add to may not exist anymore once the original value is removed. In that case, nothing moves.
+        original_root = deepcopy(self._root)
+        if self._patch_remove(path_stack_from) and self._patch_add(path_stack, original_value):
+            return True
+        self._root = original_root
+        return False
 
     def _patch_copy(self, path_stack: StrStack, value_from: str) -> bool:
         """
-- 
2.43.0


From 23e0e293ccbd75991e0c979ea08e3bea4ba60e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:36 +0000
Subject: [PATCH 26/76] fix: patch empty lists and objects into existing keys

---
 conda_recipe_manager/parser/recipe_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 078b356..e975d38 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -37,7 +37,7 @@ from conda_recipe_manager.parser._utils import (
 )
 from conda_recipe_manager.parser.dependency import DependencySection, dependency_section_to_str
 from conda_recipe_manager.parser.enums import SchemaVersion
-from conda_recipe_manager.parser.types import TAB_AS_SPACES, TAB_SPACE_COUNT, MultilineVariant
+from conda_recipe_manager.parser.types import TAB_AS_SPACES, TAB_SPACE_COUNT, MultilineVariant, NodeValue
 from conda_recipe_manager.types import PRIMITIVES_TUPLE, JsonType, Primitives, SentinelType
 from conda_recipe_manager.utils.cryptography.hashing import hash_str
 from conda_recipe_manager.utils.typing import optional_str
@@ -221,6 +221,10 @@ class RecipeReader(IsModifiable):
                 )
             ]
 
+        # Empty collections are written on a single line, like primitive values.
+        if value in ([], {}):
+            return [Node(value=cast(NodeValue, [] if isinstance(value, list) else {}))]
+
         # For complex types, generate the YAML equivalent and build a new tree.
         if not isinstance(value, PRIMITIVES_TUPLE):
             # Although not technically required by YAML, we add the optional spacing for human readability.
-- 
2.43.0


From da44ac3feb1073575c586d7735ba21586a52753b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:26 +0000
Subject: [PATCH 27/76] fix: keep strings with several lines and values that
 repeat in patches

---
 conda_recipe_manager/parser/_types.py        | 23 ++++++++++++++++++++
 conda_recipe_manager/parser/recipe_parser.py | 10 ++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 331d749..d36dc1e 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -116,6 +116,29 @@ class ForceIndentDumper(yaml.Dumper):
     def increase_indent(self, flow: bool = False, indentless: bool = False) -> None:  # pylint: disable=unused-argument
         return super().increase_indent(flow, False)
 
+    def ignore_aliases(self, data: object) -> bool:  # pylint: disable=unused-argument
+        """
+        Recipe files do not use anchors, so values that occur more than once are written out every time.
+
+        :param data: Value to be written
+        :returns: True, always.
+        """
+        return True
+
+
+def _represent_str(dumper: yaml.Dumper, data: str) -> yaml.ScalarNode:
+    """
+    Keeps strings with several lines on a single line of the YAML output, as the parser reads quoted strings by line.
+
+    :param dumper: Dumper in use
+    :param data: String to be written
+    :returns: YAML node of the string
+    """
+    return dumper.represent_scalar("tag:yaml.org,2002:str", data, style='"' if "\n" in data else None)
+
+
+ForceIndentDumper.add_representer(str, _represent_str)
+
 
 class Regex:
     """
diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index cd1a3ee..36c79db 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -37,7 +37,7 @@ from conda_recipe_manager.parser.enums import SelectorConflictMode
 from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
 from conda_recipe_manager.parser.recipe_reader import RecipeReader
 from conda_recipe_manager.parser.selector_parser import SelectorParser
-from conda_recipe_manager.parser.types import JSON_PATCH_SCHEMA
+from conda_recipe_manager.parser.types import JSON_PATCH_SCHEMA, MultilineVariant
 from conda_recipe_manager.types import PRIMITIVES_TUPLE, JsonPatchType, JsonType
 
 
@@ -367,6 +367,10 @@ class RecipeParser(RecipeReader):
             else:
                 for child in new_children:
                     child.list_member_flag = True
+                    # Strings with several lines are written on a single line in a list.
+                    if child.multiline_variant != MultilineVariant.NONE:
+                        child.value = value
+                        child.multiline_variant = MultilineVariant.NONE
 
         # Insert members if an index is specified. Otherwise, extend the list of child nodes from the existing list.
         if phys_idx > INVALID_IDX:
@@ -437,6 +441,10 @@ class RecipeParser(RecipeReader):
                 # Ensure all children are marked as list members
                 for child in new_children:
                     child.list_member_flag = True
+                    # Strings with several lines are written on a single line in a list.
+                    if child.multiline_variant != MultilineVariant.NONE:
+                        child.value = value
+                        child.multiline_variant = MultilineVariant.NONE
             node.children[phys_idx:phys_idx] = new_children
             # Evict the old child, which is now behind the new children
             node.children.pop(phys_idx + len(new_children))
-- 
2.43.0


From 8e5ac5f335d1d4c617fa9274280507653864233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:02 +0000
Subject: [PATCH 28/76] fix: patch-add does not add to the primitive elements
 of a list

---
 conda_recipe_manager/parser/recipe_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 36c79db..59d6c7e 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -344,6 +344,8 @@ class RecipeParser(RecipeReader):
 
         # As per the RFC, members can only be added to objects and elements can only be appended to lists. Keys without
         # a value may become either.
+        if (append_to_list or path_to_create) and node.is_leaf() and not node.key_flag:
+            return False
         members = [child for child in node.children if not child.is_comment()]
         # Empty collections are stored as a value, which is replaced by the first element or member.
         if len(members) == 1 and members[0].is_leaf() and members[0].value == ([] if append_to_list else {}):
-- 
2.43.0


From 688dbed1ba5705922557d48677b014aaa1a83a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:51 +0000
Subject: [PATCH 29/76] fix: keep moved strings with several lines and Jinja
 statements readable

---
 conda_recipe_manager/parser/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index c25cb8b..7f2cbe6 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -163,6 +163,8 @@ def _is_misread_as_plain(s: str) -> bool:
     :param s: String to check
     :returns: True if the string can't be rendered without quotes. False otherwise.
     """
+    if "\n" in s:
+        return True
     if Regex.JINJA_FUNCTION_MATCH.search(s) or (cast(list[str], Regex.JINJA_V0_SUB.findall(s)) and '"' in s):
         return False
     plain = Regex.JINJA_V0_SUB.sub(RECIPE_MANAGER_SUB_MARKER, s)
-- 
2.43.0


From 4771583b1922276af531bc2fadb5fc1d41cc20a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:23 +0000
Subject: [PATCH 30/76] fix: patch-add to the end of a list that is a list
 element does not edit the outer list

---
 conda_recipe_manager/parser/recipe_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 59d6c7e..e6235e5 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -309,6 +309,9 @@ class RecipeParser(RecipeReader):
 
         path_stack_copy = path_stack.copy()
         node, virt_idx, phys_idx = traverse_with_index(self._root, path_stack)
+        # An index in front of the `-` is an element of the path, not the position to add to.
+        if append_to_list:
+            node, virt_idx, phys_idx = traverse(self._root, path_stack_copy), INVALID_IDX, INVALID_IDX
         # Attempt to run a second time, if no node is found. As per the RFC, the containing object/list must exist. That
         # allows us to create only 1 level in the path.
         path_to_create = ""
-- 
2.43.0


From d687db922f53dfecca9eb74d4436ef2a9b19c252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:15 +0000
Subject: [PATCH 31/76] fix: only report references to the variable asked for

---
 conda_recipe_manager/parser/recipe_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index e975d38..4bc696a 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1123,9 +1123,9 @@ class RecipeReader(IsModifiable):
         def _init_re() -> re.Pattern[str]:
             match self._schema_version:
                 case SchemaVersion.V0:
-                    return re.compile(r"{{.*" + var + r".*}}")
+                    return re.compile(r"{{[^{}]*\b" + re.escape(var) + r"\b[^{}]*}}")
                 case SchemaVersion.V1:
-                    return re.compile(r"\${{.*" + var + r".*}}")
+                    return re.compile(r"\${{[^{}]*\b" + re.escape(var) + r"\b[^{}]*}}")
 
         var_re: Final[re.Pattern[str]] = _init_re()
 
-- 
2.43.0


From 1ec9aea06bbb9fee48fa3a3fe53c00933a1d8e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:58 +0000
Subject: [PATCH 32/76] fix: report references to variables in strings with
 several lines

---
 conda_recipe_manager/parser/recipe_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 4bc696a..cde103a 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1130,8 +1130,9 @@ class RecipeReader(IsModifiable):
         var_re: Final[re.Pattern[str]] = _init_re()
 
         def _collect_var_refs(node: Node, path: StrStack) -> None:
-            # Variables can only be found inside string values.
-            if isinstance(node.value, str) and var_re.search(node.value):
+            # Variables can only be found inside string values. Multiline strings are stored by line.
+            value = "\n".join(node.value) if node.multiline_variant != MultilineVariant.NONE else node.value
+            if isinstance(value, str) and var_re.search(value):
                 path_list.append(stack_path_to_str(path))
 
         traverse_all(self._root, _collect_var_refs)
-- 
2.43.0


From 1657f3e6f395d0f8f3d767f48cd306f33006e8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:46 +0000
Subject: [PATCH 33/76] fix: keep the comments of a list element and of its
 first key in step

---
 conda_recipe_manager/parser/recipe_parser.py | 41 +++++++++++++-------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index e6235e5..6994887 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -118,6 +118,29 @@ class RecipeParser(RecipeReader):
         self._is_modified = True
 
     ## Selector Editing Functions ##
+
+    def _set_line_comment(self, path: str, node: Node, comment: str) -> None:
+        """
+        Sets the comment of a line. Some lines of YAML correspond to multiple nodes. For consistency, we need to ensure
+        that comments are duplicated across all nodes on a line.
+
+        :param path: Path of the node
+        :param node: Node to set the comment of
+        :param comment: Comment to set
+        """
+        nodes = [node]
+        if node.is_collection_element():
+            # An object in a list shares the line with its first key.
+            nodes.append(node.children[0])
+        else:
+            parent = traverse(self._root, str_to_stack_path(path)[1:])
+            if parent is not None and parent.is_collection_element() and parent.children[0] is node:
+                nodes.append(parent)
+        for line_node in nodes:
+            line_node.comment = comment
+            if line_node.is_single_key():
+                line_node.children[0].comment = comment
+
     def add_selector(
         self, path: str, selector: str | SelectorParser, mode: SelectorConflictMode = SelectorConflictMode.REPLACE
     ) -> None:
@@ -163,11 +186,7 @@ class RecipeParser(RecipeReader):
             # Strip the existing comment of it's leading `#` symbol
             comment = f"# {selector} " + node.comment.replace("#", "", 1).strip()
 
-        node.comment = comment
-        # Some lines of YAML correspond to multiple nodes. For consistency, we need to ensure that comments are
-        # duplicate across all nodes on a line.
-        if node.is_single_key():
-            node.children[0].comment = comment
+        self._set_line_comment(path, node, comment)
 
         self._rebuild_selectors()
         self._is_modified = True
@@ -200,11 +219,7 @@ class RecipeParser(RecipeReader):
         if comment.strip() == "#":
             comment = ""
 
-        node.comment = comment
-        # Some lines of YAML correspond to multiple nodes. For consistency, we need to ensure that comments are
-        # duplicate across all nodes on a line.
-        if node.is_single_key():
-            node.children[0].comment = comment
+        self._set_line_comment(path, node, comment)
 
         self._rebuild_selectors()
         self._is_modified = True
@@ -246,11 +261,7 @@ class RecipeParser(RecipeReader):
         # Prepend a `#` if it is missing
         if comment[0] != "#":
             comment = f"# {comment}"
-        node.comment = comment
-        # Comments for "single key" nodes apply to both the parent and child. This is because such parent nodes render
-        # on the same line as their children.
-        if node.is_single_key():
-            node.children[0].comment = comment
+        self._set_line_comment(path, node, comment)
         self._is_modified = True
 
     ## YAML Patching Functions ##
-- 
2.43.0


From 5f876a4ba8b086ad1acb1f90c035834d2156074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:34 +0000
Subject: [PATCH 34/76] fix: selectors of a list do not apply to its lone
 element and vice versa

---
 conda_recipe_manager/parser/recipe_parser.py      | 2 +-
 conda_recipe_manager/parser/recipe_parser_deps.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 6994887..0cd165b 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -138,7 +138,7 @@ class RecipeParser(RecipeReader):
                 nodes.append(parent)
         for line_node in nodes:
             line_node.comment = comment
-            if line_node.is_single_key():
+            if line_node.is_single_key() and not line_node.children[0].list_member_flag:
                 line_node.children[0].comment = comment
 
     def add_selector(
diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index 064f448..8e7ab8d 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -202,6 +202,9 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
             # patch, so we know we can make assume a dependency list exists.
             if sel_path.endswith("/-"):
                 sel_path = sel_path[0:-1] + str(len(cast(list[str], self.get_value(base_path))) - 1)
+            # The selector belongs to the dependency, not to the section that was added for it.
+            elif is_new_section:
+                sel_path = f"{base_path}/0"
             self.add_selector(sel_path, dep.selector, mode=sel_mode)
         return patch_success
 
-- 
2.43.0


From 849ef48defa457595dd3893dae98a271b89222ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:36 +0000
Subject: [PATCH 35/76] fix: selector paths can be asked for more than once

---
 conda_recipe_manager/parser/_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 7f2cbe6..b4d4af0 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -68,9 +68,8 @@ def stack_path_to_str(path_stack: StrStack | StrStackImmutable) -> str:
     :param path_stack: Stack to construct back into a string.
     :returns: Path, described as a string.
     """
-    # Normalize type if a tuple is given.
-    if isinstance(path_stack, tuple):
-        path_stack = list(path_stack)
+    # Normalize type if a tuple is given and leave the stack of the caller as it is.
+    path_stack = list(path_stack)
     path = ""
     while len(path_stack) > 0:
         value = path_stack.pop()
-- 
2.43.0


From c988e9df94d7b2a54e23c28ef3cea3203cb6e630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:13 +0000
Subject: [PATCH 36/76] fix: objects in lists still start with a key after
 their first key is removed

---
 conda_recipe_manager/parser/recipe_parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 0cd165b..1a42541 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -432,6 +432,12 @@ class RecipeParser(RecipeReader):
         for i in range(len(node.children)):
             if node.children[i] == node_to_rm:
                 node.children.pop(i)
+                # An object in a list starts with a key, whose line it shares. Comments follow that key.
+                first_key = next((child for child in node.children if not child.is_comment()), None)
+                if node.is_collection_element() and first_key is not None:
+                    node.children.remove(first_key)
+                    node.children.insert(0, first_key)
+                    node.comment = first_key.comment
                 return True
         return False
 
-- 
2.43.0


From 27f4fd2a6aacc2c609de3c94fc7d38f10e6824b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:28 +0000
Subject: [PATCH 37/76] fix: dependency look-ups skip list elements that are
 not strings

---
 conda_recipe_manager/parser/recipe_reader_deps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader_deps.py b/conda_recipe_manager/parser/recipe_reader_deps.py
index c2b2187..fea34f9 100644
--- a/conda_recipe_manager/parser/recipe_reader_deps.py
+++ b/conda_recipe_manager/parser/recipe_reader_deps.py
@@ -49,7 +49,8 @@ class RecipeReaderDeps(RecipeReader):
         :param dep: Dependency string to validate. This is the string found in a list in a dependency section.
         :returns: The sanitized string, if valid. `None`, if invalid.
         """
-        if dep is None:
+        # Lists may hold more than strings, such as the `if`/`then` blocks of the V1 format.
+        if not isinstance(dep, str):
             return None
 
         dep = dep.strip()
-- 
2.43.0


From 30c1a7ee60d15b961792680abdea3c26ab706b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:25 +0000
Subject: [PATCH 38/76] fix: adding a dependency to an empty section does not
 compare it with the section's name

---
 conda_recipe_manager/parser/recipe_parser_deps.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index 8e7ab8d..f7f1232 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -169,9 +169,10 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
         patch_path = RecipeParserDeps._init_patch_path(dep, dep_mode, base_path, is_new_section)
 
         # TODO: Add a "get dependencies at path" function to `RecipeReaderDeps`
-        cur_deps: Final[list[Optional[str]]] = cast(
-            list[Optional[str]], self.get_value(base_path, sub_vars=True, default=[])
-        )
+        cur_deps = cast(list[Optional[str]], self.get_value(base_path, sub_vars=True, default=[]))
+        # Sections without any dependencies hold no list.
+        if not isinstance(cur_deps, list):
+            cur_deps = []
 
         # Check for duplicate dependencies, if applicable.
         if dep_mode not in {DependencyConflictMode.USE_BOTH, DependencyConflictMode.EXACT_POSITION}:
-- 
2.43.0


From 8fb29224d40e9b085d53abcf3cffa02ca4ab8613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:52 +0000
Subject: [PATCH 39/76] fix: every conversion starts from the current recipe
 with no messages

---
 conda_recipe_manager/parser/recipe_parser_convert.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 14cfc50..108583c 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -31,12 +31,17 @@ class RecipeParserConvert(RecipeParser):
         :param content: conda-build formatted recipe file, as a single text string.
         """
         super().__init__(content)
+        self._spdx_utils = SpdxUtils()
+        self._init_conversion()
+
+    def _init_conversion(self) -> None:
+        """
+        Sets up the state of a conversion, so that every conversion starts from the current state of the recipe.
+        """
         # `copy.deepcopy()` produced some bizarre artifacts, namely single-line comments were being incorrectly rendered
         # as list members. Although inefficient, we have tests that validate round-tripping the parser and there
         # is no development cost in utilizing tools we already must maintain.
         self._v1_recipe: RecipeParser = RecipeParser(self.render())
-
-        self._spdx_utils = SpdxUtils()
         self._msg_tbl = MessageTable()
 
     ## Patch utility functions ##
@@ -761,6 +766,8 @@ class RecipeParserConvert(RecipeParser):
         # Approach: In the event that we want to expand support later, this function should be implemented in terms
         # of a `RecipeParser` tree. This will make it easier to build an upgrade-path, if we so choose to pursue one.
 
+        self._init_conversion()
+
         # Log the original comments
         old_comments: Final[dict[str, str]] = self._v1_recipe.get_comments_table()
 
-- 
2.43.0


From a6cd2c93141a2502352701ae67cd4bd609dc05af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:47 +0000
Subject: [PATCH 40/76] fix: selectors on false values are converted to
 conditions on false

---
 conda_recipe_manager/parser/recipe_parser_convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 108583c..2ebd72c 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -224,10 +224,10 @@ class RecipeParserConvert(RecipeParser):
                 patch: JsonPatchType = {
                     "op": "replace",
                     "path": selector_path,
-                    "value": "${{ true if " + bool_expression + " }}",
+                    "value": f"${{{{ {'false' if info.node.value is False else 'true'} if {bool_expression} }}}}",
                 }
                 # `skip` is special and can be a single boolean expression or a list of boolean expressions.
-                if selector_path.endswith("/build/skip"):
+                if selector_path.endswith("/build/skip") and info.node.value is not False:
                     patch["value"] = bool_expression
                 if not isinstance(info.node.value, bool):
                     # CEP-13 states that ONLY list members may use the `if/then/else` blocks
-- 
2.43.0


From 305d93ecaeb56b7d15b7d91cf6d6daea898848e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:09 +0000
Subject: [PATCH 41/76] fix: the only key of an object in a list can be renamed
 by a patch-move

---
 conda_recipe_manager/parser/recipe_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 1a42541..427d058 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -507,7 +507,12 @@ class RecipeParser(RecipeReader):
 
         # The position to add to may not exist anymore once the original value is removed. In that case, nothing moves.
         original_root = deepcopy(self._root)
-        if self._patch_remove(path_stack_from) and self._patch_add(path_stack, original_value):
+        # Objects in lists may not be empty, so a key that gets another name is added before the old one is removed.
+        is_new_name = path_stack[1:] == path_stack_from[1:] and path_stack[:1] != path_stack_from[:1]
+        if is_new_name and not path_stack[0].isdigit() and not path_stack_from[0].isdigit() and path_stack[0] != "-":
+            if self._patch_add(path_stack, original_value) and self._patch_remove(path_stack_from):
+                return True
+        elif self._patch_remove(path_stack_from) and self._patch_add(path_stack, original_value):
             return True
         self._root = original_root
         return False
-- 
2.43.0


From d692f643e115222d0d56e6256042a96ae5eadff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:17 +0000
Subject: [PATCH 42/76] fix: quote strings with quotes in a JINJA statement
 that YAML misreads

---
 conda_recipe_manager/parser/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index b4d4af0..9fb097c 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -164,7 +164,7 @@ def _is_misread_as_plain(s: str) -> bool:
     """
     if "\n" in s:
         return True
-    if Regex.JINJA_FUNCTION_MATCH.search(s) or (cast(list[str], Regex.JINJA_V0_SUB.findall(s)) and '"' in s):
+    if Regex.JINJA_FUNCTION_MATCH.search(s) or ('"' in s and "'" in s):
         return False
     plain = Regex.JINJA_V0_SUB.sub(RECIPE_MANAGER_SUB_MARKER, s)
     try:
@@ -203,7 +203,8 @@ def stringify_yaml(
     if isinstance(val, str):
         quoted = quote_special_strings(val, multiline_variant)
         if multiline_variant == MultilineVariant.NONE and quoted == val and _is_misread_as_plain(val):
-            return json.dumps(val)
+            # Escaping the quotes would change the JINJA statements
+            return f"'{val}'" if '"' in val and "\n" not in val else json.dumps(val)
         return quoted
     return val
 
-- 
2.43.0


From 4a1c13b2b73017fb55337db2f3bc80f03702f823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:00 +0000
Subject: [PATCH 43/76] fix: dots in strings of Jinja set statements are no
 function calls

---
 conda_recipe_manager/parser/_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index d36dc1e..d74acb7 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -162,7 +162,7 @@ class Regex:
     # Finds set statements that use dot functions over piped functions (`foo.replace(...)` vs `foo | replace(...)`).
     # Group 1 and Group 2 match the left and right sides of the period mark.
     PRE_PROCESS_JINJA_DOT_FUNCTION_IN_ASSIGNMENT: Final[re.Pattern[str]] = re.compile(
-        r"(\{%\s*set.*=.*)\.(.*\(.*\)\s*%\})"
+        r"(\{%\s*set.*=.*)\.([a-zA-Z0-9_]+\(.*\)\s*%\})"
     )
     PRE_PROCESS_JINJA_DOT_FUNCTION_IN_SUBSTITUTION: Final[re.Pattern[str]] = re.compile(
         r"(\{\{\s*[a-zA-Z0-9_]*.*)\.([a-zA-Z0-9_]*\(.*\)\s*\}\})"
-- 
2.43.0


From fdb30b83f66e6b8a7116477c5b261a3d386f2e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:42 +0000
Subject: [PATCH 44/76] fix: rewrite the environ[] of a recipe that were found,
 not the first alike

---
 conda_recipe_manager/parser/_types.py              |  2 +-
 .../parser/recipe_parser_convert.py                | 14 +-------------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index d74acb7..9808a50 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -154,7 +154,7 @@ class Regex:
     ## Pre-process conversion tooling regular expressions ##
     # Finds `environ[]` used by a some recipe files. Requires a whitespace character to prevent matches with
     # `os.environ[]`, which is very rare.
-    PRE_PROCESS_ENVIRON: Final[re.Pattern[str]] = re.compile(r"\s+environ\[(\"|')(.*)(\"|')\]")
+    PRE_PROCESS_ENVIRON: Final[re.Pattern[str]] = re.compile(r"(\s+)environ\[(\"|')(.*?)\2\]")
     # Finds commonly used variants of `{{ hash_type }}:` which is a substitution for the `sha256` field
     PRE_PROCESS_JINJA_HASH_TYPE_KEY: Final[re.Pattern[str]] = re.compile(
         r"'{0,1}\{\{ (hash_type|hash|hashtype) \}\}'{0,1}:"
diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 2ebd72c..99fa9d6 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -732,19 +732,7 @@ class RecipeParserConvert(RecipeParser):
         # NOTE:
         #   - This is mostly used by Bioconda recipes and R-based-packages in the `license_file` field.
         #   - From our search, it looks like we never deal with more than one set of outer quotes within the brackets
-        replacements: list[tuple[str, str]] = []
-        for groups in cast(list[str], Regex.PRE_PROCESS_ENVIRON.findall(content)):
-            # Each match should return ["<quote char>", "<key>", "<quote_char>"]
-            quote_char = groups[0]
-            key = groups[1]
-            replacements.append(
-                (
-                    f"environ[{quote_char}{key}{quote_char}]",
-                    f"env.get({quote_char}{key}{quote_char})",
-                )
-            )
-        for old, new in replacements:
-            content = content.replace(old, new, 1)
+        content = Regex.PRE_PROCESS_ENVIRON.sub(r"\1env.get(\2\3\2)", content)
 
         # Replace `{{ hash_type }}:` with the value of `hash_type`, which is likely `sha256`. This is an uncommon
         # practice that is not part of the V1 specification. Currently, about 70 AnacondaRecipes and conda-forge files
-- 
2.43.0


From 1dcdc34cb4871647d2a8b8424df9bdc60832bab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:00 +0000
Subject: [PATCH 45/76] fix: search strings with several lines by their text

---
 conda_recipe_manager/parser/recipe_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index cde103a..bd127b9 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1271,7 +1271,8 @@ class RecipeReader(IsModifiable):
         paths: list[str] = []
 
         def _search_paths(node: Node, path_stack: StrStack) -> None:
-            value = str(stringify_yaml(node.value))
+            # Multiline strings are stored as a list of lines
+            value = "\n".join(node.value) if isinstance(node.value, list) else str(stringify_yaml(node.value))
             if include_comment and node.comment:
                 value = f"{value}{TAB_AS_SPACES}{node.comment}"
             if node.is_leaf() and re_obj.search(value):
-- 
2.43.0


From 3366b804d00b2ec18ecbf80768f233c72a4bb6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:57 +0000
Subject: [PATCH 46/76] fix: count all recipes that failed to convert in the
 bulk statistics

---
 conda_recipe_manager/commands/convert.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/convert.py b/conda_recipe_manager/commands/convert.py
index 357443f..d6005e1 100644
--- a/conda_recipe_manager/commands/convert.py
+++ b/conda_recipe_manager/commands/convert.py
@@ -306,7 +306,13 @@ def convert(
     num_recipe_success: int = 0
 
     for project_name, result in results.items():
-        if result.code in {ExitCode.PARSE_EXCEPTION, ExitCode.READ_EXCEPTION, ExitCode.RENDER_EXCEPTION}:
+        if result.code in {
+            ExitCode.PARSE_EXCEPTION,
+            ExitCode.READ_EXCEPTION,
+            ExitCode.RENDER_EXCEPTION,
+            ExitCode.PRE_PROCESS_EXCEPTION,
+            ExitCode.ILLEGAL_OPERATION,
+        }:
             recipes_with_except.append(project_name)
             exceptions = result.msg_tbl.get_messages(MessageCategory.EXCEPTION)
             for exception in exceptions:
-- 
2.43.0


From 42d707f1fd33ad1cb44d67b5fa050332bdffb8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:41 +0000
Subject: [PATCH 47/76] fix: reset the build number when bumping to a new
 version, even with --build-num

---
 conda_recipe_manager/commands/bump_recipe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/bump_recipe.py b/conda_recipe_manager/commands/bump_recipe.py
index a92a213..d897d54 100644
--- a/conda_recipe_manager/commands/bump_recipe.py
+++ b/conda_recipe_manager/commands/bump_recipe.py
@@ -388,7 +388,7 @@ def bump_recipe(
         sys.exit(ExitCode.PARSE_EXCEPTION)
 
     # Attempt to update fields
-    _update_build_num(recipe_parser, build_num)
+    _update_build_num(recipe_parser, build_num and target_version is None)
 
     # NOTE: We check if `target_version` is specified to perform a "full bump" for type checking reasons. Also note that
     # the `build_num` flag is invalidated if we are bumping to a new version. The build number must be reset to 0 in
-- 
2.43.0


From 885567273645fb619705afe4b6164d25f7a01966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:41 +0000
Subject: [PATCH 48/76] fix: check out the resolved tag or revision of a git
 source

---
 conda_recipe_manager/fetcher/git_artifact_fetcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/git_artifact_fetcher.py b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
index 2aa3c70..0c3ebab 100644
--- a/conda_recipe_manager/fetcher/git_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
@@ -104,7 +104,7 @@ class GitArtifactFetcher(BaseArtifactFetcher):
         git_target: Final[Optional[str]] = self._resolve_checkout_target()
         if git_target:
             try:
-                repo.git.checkout(self._git_target.branch, force=True)
+                repo.git.checkout(git_target, force=True)
             except git_exceptions.GitError as e:
                 raise FetchError(f"Failed to git checkout target: {git_target}") from e
 
-- 
2.43.0


From 515fde71ca08defdd4e18ab1c343680bbd6ff89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:41 +0000
Subject: [PATCH 49/76] fix: copy local git repositories into the existing
 temporary directory

---
 conda_recipe_manager/fetcher/git_artifact_fetcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/git_artifact_fetcher.py b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
index 0c3ebab..dc9ec40 100644
--- a/conda_recipe_manager/fetcher/git_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
@@ -65,7 +65,8 @@ class GitArtifactFetcher(BaseArtifactFetcher):
             case True:
                 return Repo.clone_from(self._git_target.url, self._temp_dir_path)  # type: ignore[misc]
             case False:
-                shutil.copytree(self._git_target.url, self._temp_dir_path)
+                # NOTE: The temporary directory has been created by the base class.
+                shutil.copytree(self._git_target.url, self._temp_dir_path, dirs_exist_ok=True)
                 return Repo(self._temp_dir_path)
 
     def _resolve_checkout_target(self) -> Optional[str]:
-- 
2.43.0


From 02e8ec026126bfe5998b9fdceca40f4393fc3a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:42 +0000
Subject: [PATCH 50/76] fix: raise FetchError for truncated or corrupted
 archives

---
 .../fetcher/http_artifact_fetcher.py                | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/http_artifact_fetcher.py b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
index 2473478..115fec0 100644
--- a/conda_recipe_manager/fetcher/http_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
@@ -4,8 +4,10 @@
 
 from __future__ import annotations
 
+import lzma
 import tarfile
 import zipfile
+import zlib
 from enum import Enum, auto
 from pathlib import Path
 from typing import Final, Iterator, cast
@@ -82,7 +84,16 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
                 # TODO 7-zip support
                 case _:
                     raise FetchError("The archive type could not be identified.")
-        except (tarfile.TarError, zipfile.BadZipFile, ValueError) as e:
+        # NOTE: Truncated or corrupted archives also raise the errors of the decompression libraries.
+        except (
+            tarfile.TarError,
+            zipfile.BadZipFile,
+            ValueError,
+            EOFError,
+            RuntimeError,
+            zlib.error,
+            lzma.LZMAError,
+        ) as e:
             raise FetchError("An extraction error occurred while extracting the archive.") from e
         except IOError as e:
             raise FetchError("A file system error occurred while extracting the archive.") from e
-- 
2.43.0


From 4e8296dd119de3b7b4ee2190dd0139af67deff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:00 +0000
Subject: [PATCH 51/76] fix: include packages without dependencies in the
 graphs, so that they can be plotted

---
 conda_recipe_manager/grapher/recipe_graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/grapher/recipe_graph.py b/conda_recipe_manager/grapher/recipe_graph.py
index 7f7f3c9..1f80cb3 100644
--- a/conda_recipe_manager/grapher/recipe_graph.py
+++ b/conda_recipe_manager/grapher/recipe_graph.py
@@ -97,6 +97,9 @@ class RecipeGraph:
                     continue
                 self._name_to_sha256[package_name] = sha
                 self._package_stats.total_packages += 1
+                # Packages without dependencies are also part of the graphs.
+                self._build_graph.add_node(package_name)  # type: ignore[misc]
+                self._test_graph.add_node(package_name)  # type: ignore[misc]
                 for dep in deps:
                     match dep.type:
                         # Build graph
-- 
2.43.0


From e57bd437367066306a61ac7bc83d270ee045dace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:33 +0000
Subject: [PATCH 52/76] fix: don't report relative imports as dependencies

---
 conda_recipe_manager/scanner/dependency/py_dep_scanner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
index b860230..cc85ad5 100644
--- a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
@@ -107,11 +107,11 @@ class PythonDependencyScanner(BaseDependencyScanner):
                 # Handle multiple (comma-separated) imports on one line
                 for alias in node.names:
                     module_names.append(alias.name.split(".")[0])
-            elif node.module is not None:
+            # Relative imports (with a non-zero level) are always a part of the project.
+            elif node.module is not None and node.level == 0:
                 module_names.append(node.module.split(".")[0])
 
             for module_name in module_names:
-                # TODO filter relative imports
                 # Filter-out the standard library modules and local module names (i.e. modules defined in the target
                 # project).
                 if not module_name or module_name in sys.stdlib_module_names or module_name in project_modules:
-- 
2.43.0


From 950f4f1e56cb359febbd810d80c67480a7c5c45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:33 +0000
Subject: [PATCH 53/76] fix: scan Python files in the encoding that they
 declare

---
 conda_recipe_manager/scanner/dependency/py_dep_scanner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
index cc85ad5..c98a261 100644
--- a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
@@ -96,7 +96,8 @@ class PythonDependencyScanner(BaseDependencyScanner):
         project_modules: Final[set[str]] = self._get_project_modules()
         # Adapted from:
         #   https://stackoverflow.com/questions/9008451/python-easy-way-to-read-all-import-statements-from-py-module
-        root = ast.parse(file.read_text(), file)
+        # NOTE: Reading bytes leaves it to the parser to respect the file's encoding declaration or byte-order mark.
+        root = ast.parse(file.read_bytes(), file)
 
         for node in ast.walk(root):
             if not isinstance(node, (ast.Import, ast.ImportFrom)):
-- 
2.43.0


From 1641fad04e73ef06d1e17795a20e1509e3bca773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:33 +0000
Subject: [PATCH 54/76] fix: report a pyproject file that is not UTF-8 as one
 that can't be parsed

---
 .../scanner/dependency/pyproject_dep_scanner.py               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py b/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
index 082f225..c4d0978 100644
--- a/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
@@ -43,10 +43,10 @@ class PyProjectDependencyScanner(BaseDependencyScanner):
         try:
             with open(self._src_dir / self._project_fn, "rb") as f:
                 data = cast(dict[str, dict[str, list[str] | dict[str, list[str]]]], tomllib.load(f))
-        except (FileNotFoundError, tomllib.TOMLDecodeError) as e:
+        except (FileNotFoundError, tomllib.TOMLDecodeError, UnicodeDecodeError) as e:
             if isinstance(e, FileNotFoundError):
                 self._msg_tbl.add_message(MessageCategory.EXCEPTION, f"`{self._project_fn}` file not found.")
-            if isinstance(e, tomllib.TOMLDecodeError):
+            if isinstance(e, (tomllib.TOMLDecodeError, UnicodeDecodeError)):
                 self._msg_tbl.add_message(MessageCategory.EXCEPTION, f"Could not parse `{self._project_fn}` file.")
             return set()
 
-- 
2.43.0


From 093c6d8283d8812bfd00e60b575377851f11d58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:39 +0000
Subject: [PATCH 55/76] fix: match SPDX identifiers and names regardless of
 letter case

The fuzzy search is case-sensitive, so that APACHE-2.0 was taken for APSL-2.0, and license names that contain words
such as 'or' for expressions.
---
 conda_recipe_manager/licenses/spdx_utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/conda_recipe_manager/licenses/spdx_utils.py b/conda_recipe_manager/licenses/spdx_utils.py
index ab2969b..65e8067 100644
--- a/conda_recipe_manager/licenses/spdx_utils.py
+++ b/conda_recipe_manager/licenses/spdx_utils.py
@@ -39,6 +39,8 @@ class SpdxUtils:
         # Generate a few look-up tables for license matching once during initialization for faster future look-ups.
         self._license_matching_table: dict[str, str] = {}
         self._license_ids: set[str] = set()
+        # SPDX IDs are not case-sensitive. Maps: `ID or name` (all uppercase) -> `ID`
+        self._license_uppercase_table: dict[str, str] = {}
         for license_data in self._raw_spdx_data["licenses"]:
             license_id = license_data["licenseId"]
             license_name = license_data["name"]
@@ -47,6 +49,10 @@ class SpdxUtils:
             self._license_matching_table[license_name] = license_id
             self._license_matching_table[license_id] = license_id
             self._license_ids.add(license_id)
+            self._license_uppercase_table[license_name.upper()] = license_id
+        # IDs take precedence over names
+        for license_id in self._license_ids:
+            self._license_uppercase_table[license_id.upper()] = license_id
 
         # Custom patch table that attempts to correct common SPDX licensing mistakes that our other methodologies cannot
         # handle. Maps: `MISTAKE` (all uppercase) -> `Corrected`
@@ -76,6 +82,10 @@ class SpdxUtils:
 
         sanitized_license = license_field.strip().upper()
 
+        # `difflib` is case-sensitive and would favor unrelated licenses, like `APSL-2.0` over `Apache-2.0`.
+        if sanitized_license in self._license_uppercase_table:
+            return self._license_uppercase_table[sanitized_license]
+
         # TODO: Improve this logic to support SPDX expressions.
         # Don't simplify compound licenses that might get accidentally simplified
         for op in SPDX_EXPRESSION_OPS:
-- 
2.43.0


From 1991b344285334246e70b83c416e6a4c3858d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:22 +0000
Subject: [PATCH 56/76] fix: keep the sentinel a singleton with all pickle
 protocols

---
 conda_recipe_manager/types.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/conda_recipe_manager/types.py b/conda_recipe_manager/types.py
index e7e2367..1403a22 100644
--- a/conda_recipe_manager/types.py
+++ b/conda_recipe_manager/types.py
@@ -59,6 +59,14 @@ class SentinelType:
             _schema_type_singleton = super().__new__(cls)
             return _schema_type_singleton
 
+    def __reduce__(self) -> tuple[type[SentinelType], tuple[()]]:
+        """
+        Reconstructs the singleton when unpickled. The oldest pickle protocols do not call `__new__()` on their own.
+
+        :returns: Callable and arguments that provide the global singleton
+        """
+        return SentinelType, ()
+
 
 class MessageCategory(StrEnum):
     """
-- 
2.43.0


From 44beff916e8838c83299baf52bd1bec7faa11bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:22 +0000
Subject: [PATCH 57/76] fix: run rattler-build with paths and arguments that
 contain spaces

---
 conda_recipe_manager/commands/rattler_bulk_build.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/commands/rattler_bulk_build.py b/conda_recipe_manager/commands/rattler_bulk_build.py
index f51e44d..689316a 100644
--- a/conda_recipe_manager/commands/rattler_bulk_build.py
+++ b/conda_recipe_manager/commands/rattler_bulk_build.py
@@ -53,13 +53,17 @@ def build_recipe(file: Path, path: Path, args: list[str]) -> tuple[str, BuildRes
     cmd.extend(args)
     try:
         output: Final[subprocess.CompletedProcess[str]] = subprocess.run(
-            " ".join(cmd),
+            cmd,
             encoding="utf-8",
             capture_output=True,
-            shell=True,
             check=False,
             timeout=DEFAULT_RATTLER_BUILD_TIMEOUT,
         )
+    except OSError:
+        return str(file.relative_to(path)), BuildResult(
+            code=ExitCode.IO_ERROR,
+            errors=["`rattler-build` could not be run."],
+        )
     except subprocess.TimeoutExpired:
         return str(file.relative_to(path)), BuildResult(
             code=ExitCode.TIMEOUT,
-- 
2.43.0


From 3631fb1e0685739074a7fb35e71c416a0c2a9d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:29 +0000
Subject: [PATCH 58/76] fix: only remove the artifacts a selector leaves at the
 start of a comment

---
 conda_recipe_manager/parser/_types.py        | 2 ++
 conda_recipe_manager/parser/recipe_parser.py | 2 +-
 conda_recipe_manager/parser/recipe_reader.py | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 9808a50..b312892 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -218,6 +218,8 @@ class Regex:
     }
 
     SELECTOR: Final[re.Pattern[str]] = re.compile(r"\[.*\]")
+    # Artifacts at the start of a comment that are left behind by removing the selector
+    SELECTOR_REMOVAL_ARTIFACTS: Final[re.Pattern[str]] = re.compile(r"^#  ?(# )?")
     # Detects the 6 common variants (3 |'s, 3 >'s). See this guide for more info:
     #   https://stackoverflow.com/questions/3790454/how-do-i-break-a-string-in-yaml-over-multiple-lines/21699210
     MULTILINE: Final[re.Pattern[str]] = re.compile(
diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 427d058..0e02248 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -214,7 +214,7 @@ class RecipeParser(RecipeReader):
         selector = search_results.group(0)
         comment = node.comment.replace(selector, "")
         # Sanitize potential edge-case scenarios after a removal
-        comment = comment.replace("#  ", "# ").replace("# # ", "# ")
+        comment = Regex.SELECTOR_REMOVAL_ARTIFACTS.sub("# ", comment)
         # Detect and remove empty comments. Other comments should remain intact.
         if comment.strip() == "#":
             comment = ""
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index bd127b9..aa6877b 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1242,7 +1242,7 @@ class RecipeReader(IsModifiable):
             if Regex.SELECTOR.search(comment):
                 comment = Regex.SELECTOR.sub("", comment).strip()
                 # Sanitize common artifacts left from removing the selector
-                comment = comment.replace("#  # ", "# ", 1).replace("#  ", "# ", 1)
+                comment = Regex.SELECTOR_REMOVAL_ARTIFACTS.sub("# ", comment)
 
                 # Reject selector-only comments
                 if comment in {"", "#"}:
-- 
2.43.0


From bdbe903e15c9fe61869e12e8de05111b864f6330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:42 +0000
Subject: [PATCH 59/76] fix: leave nothing of former attempts in the files and
 state of an HTTP fetch

---
 conda_recipe_manager/fetcher/http_artifact_fetcher.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/conda_recipe_manager/fetcher/http_artifact_fetcher.py b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
index 115fec0..97fa371 100644
--- a/conda_recipe_manager/fetcher/http_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
@@ -5,6 +5,7 @@
 from __future__ import annotations
 
 import lzma
+import shutil
 import tarfile
 import zipfile
 import zlib
@@ -70,6 +71,9 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
         :raises FetchError: If an issue occurred while extracting the archive.
         """
         try:
+            # Nothing that a former attempt extracted belongs to this archive.
+            if self._uncompressed_archive_path.exists():
+                shutil.rmtree(self._uncompressed_archive_path)
             match self._archive_path:
                 case path if tarfile.is_tarfile(path):
                     self._archive_type = ArtifactArchiveType.TARBALL
@@ -104,6 +108,9 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
 
         :raises FetchError: If an issue occurred while downloading or extracting the archive.
         """
+        # What a former attempt fetched is about to be replaced.
+        self._successfully_fetched = False
+
         # Buffered download approach
         try:
             response = requests.get(str(self._archive_url), stream=True, timeout=_DOWNLOAD_TIMEOUT)
-- 
2.43.0


From 858a1cc9cb92bf30875f8312b6e8db8bc9026243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:46 +0000
Subject: [PATCH 60/76] fix: sources that are no objects are unsupported
 sources, not a crash

---
 conda_recipe_manager/fetcher/artifact_fetcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conda_recipe_manager/fetcher/artifact_fetcher.py b/conda_recipe_manager/fetcher/artifact_fetcher.py
index e1384ed..234a07d 100644
--- a/conda_recipe_manager/fetcher/artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/artifact_fetcher.py
@@ -79,6 +79,10 @@ def from_recipe(recipe: RecipeReader, ignore_unsupported: bool = False) -> dict[
         recipe_name = "Unknown Recipe"
 
     for i, parsed_source in enumerate(parsed_sources):
+        # Sources that are no objects (such as empty ones) have none of the supported keys.
+        if not isinstance(parsed_source, dict):
+            parsed_source = {}
+
         # NOTE: `optional_str()` is used to force evaluation of potentially unknown types to strings for input
         #       sanitation purposes.
         # NOTE: `url` is the same for both V0 and V1 formats.
-- 
2.43.0


From 2dc0e87ba623cdfa3e2f84aae40ba872055ac795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:00 +0000
Subject: [PATCH 61/76] fix: an output file that can't be written is a failed
 recipe and stops no other

---
 conda_recipe_manager/commands/convert.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/commands/convert.py b/conda_recipe_manager/commands/convert.py
index d6005e1..28d831d 100644
--- a/conda_recipe_manager/commands/convert.py
+++ b/conda_recipe_manager/commands/convert.py
@@ -164,8 +164,13 @@ def convert_file(file_path: Path, output: Optional[Path], print_output: bool, de
             "WARNING: File is not called `recipe.yaml`.",
             print_enabled=print_output and os.path.basename(output) != "recipe.yaml",
         )
-        with open(output, "w", encoding="utf-8") as fptr:
-            fptr.write(conversion_result.content)
+        try:
+            with open(output, "w", encoding="utf-8") as fptr:
+                fptr.write(conversion_result.content)
+        except Exception as e:  # pylint: disable=broad-exception-caught
+            return _record_unrecoverable_failure(
+                conversion_result, ExitCode.IO_ERROR, f"EXCEPTION: Failed to write: {output}", print_output, e
+            )
 
     conversion_result.set_return_code()
     return conversion_result
@@ -312,6 +317,7 @@ def convert(
             ExitCode.RENDER_EXCEPTION,
             ExitCode.PRE_PROCESS_EXCEPTION,
             ExitCode.ILLEGAL_OPERATION,
+            ExitCode.IO_ERROR,
         }:
             recipes_with_except.append(project_name)
             exceptions = result.msg_tbl.get_messages(MessageCategory.EXCEPTION)
-- 
2.43.0


From 3a0ec2268d670a9d0890522293ea2fd2fdaaf0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:49 +0000
Subject: [PATCH 62/76] fix: a recipe to bump that is not UTF-8 can't be read,
 which is no crash

---
 conda_recipe_manager/commands/bump_recipe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/bump_recipe.py b/conda_recipe_manager/commands/bump_recipe.py
index d897d54..fbb6a09 100644
--- a/conda_recipe_manager/commands/bump_recipe.py
+++ b/conda_recipe_manager/commands/bump_recipe.py
@@ -374,7 +374,7 @@ def bump_recipe(
 
     try:
         recipe_content = Path(recipe_file_path).read_text(encoding="utf-8")
-    except IOError:
+    except (IOError, UnicodeDecodeError):
         log.error("Couldn't read the given recipe file: %s", recipe_file_path)
         sys.exit(ExitCode.IO_ERROR)
 
-- 
2.43.0


From bd23e53655c52d7c5f42e65250fd693ad5f95fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:05 +0000
Subject: [PATCH 63/76] fix: files that are not UTF-8 or can't be read are
 errors of the patch command, not crashes

---
 conda_recipe_manager/commands/patch.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/commands/patch.py b/conda_recipe_manager/commands/patch.py
index 587fcad..ba4a0cc 100644
--- a/conda_recipe_manager/commands/patch.py
+++ b/conda_recipe_manager/commands/patch.py
@@ -29,14 +29,19 @@ def _pre_patch_validate(
     :returns: A tuple containing the patch blob/blobs from the json file and a RecipeParser object
     """
     try:
-        contents_json = cast(JsonPatchType | list[JsonPatchType], json.loads(json_patch_file_path.read_text()))
-    except json.JSONDecodeError:
+        contents_json = cast(
+            JsonPatchType | list[JsonPatchType], json.loads(json_patch_file_path.read_text(encoding="utf-8"))
+        )
+    except (json.JSONDecodeError, UnicodeDecodeError):
         print(f"Non-JSON file provided: {json_patch_file_path}")
         sys.exit(ExitCode.JSON_ERROR)
+    except IOError:
+        print_err(f"Couldn't read the given patch file: {json_patch_file_path}")
+        sys.exit(ExitCode.IO_ERROR)
 
     try:
-        contents_recipe = recipe_file_path.read_text()
-    except IOError:
+        contents_recipe = recipe_file_path.read_text(encoding="utf-8")
+    except (IOError, UnicodeDecodeError):
         print_err(f"Couldn't read the given recipe file: {recipe_file_path}")
         sys.exit(ExitCode.IO_ERROR)  # untested
 
-- 
2.43.0


From 46f004b133e096096d39caec0aae3f1e96db4d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:47 +0000
Subject: [PATCH 64/76] fix: count a recipe with errors whose output can't be
 written as one failure

---
 conda_recipe_manager/commands/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/convert.py b/conda_recipe_manager/commands/convert.py
index 28d831d..731db8b 100644
--- a/conda_recipe_manager/commands/convert.py
+++ b/conda_recipe_manager/commands/convert.py
@@ -339,7 +339,7 @@ def convert(
             num_recipe_success += 1
 
     # Self-check metric. This should be the same as the other calculated success metric.
-    num_theoretical_recipe_success: Final[int] = total_recipes - (len(recipes_with_except) + len(recipes_with_errors))
+    num_theoretical_recipe_success: Final[int] = total_recipes - len({*recipes_with_except, *recipes_with_errors})
     percent_recipe_success: Final[float] = round(num_recipe_success / total_recipes, 2)
 
     stats = {
-- 
2.43.0


From 22ead418ce668bb1a1707ff893094b09150f6691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:26 +0000
Subject: [PATCH 65/76] fix: booleans do not equal numbers in a patch-test

---
 conda_recipe_manager/parser/_utils.py        | 15 +++++++++++++++
 conda_recipe_manager/parser/recipe_parser.py |  4 ++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 9fb097c..8aa9336 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -251,6 +251,21 @@ def set_key_conditionally(dictionary: dict[str, JsonType], key: str, value: Json
         dictionary[key] = value
 
 
+def is_json_equal(lhs: JsonType, rhs: JsonType) -> bool:
+    """
+    Compares two JSON values for equality, as defined by RFC 6902. Unlike in Python, booleans never equal numbers.
+
+    :param lhs: Left-hand side of the comparison
+    :param rhs: Right-hand side of the comparison
+    :returns: True if both values are equal. False otherwise.
+    """
+    if isinstance(lhs, dict) and isinstance(rhs, dict):
+        return lhs.keys() == rhs.keys() and all(is_json_equal(val, rhs[key]) for key, val in lhs.items())
+    if isinstance(lhs, list) and isinstance(rhs, list):
+        return len(lhs) == len(rhs) and all(map(is_json_equal, lhs, rhs))
+    return isinstance(lhs, bool) == isinstance(rhs, bool) and lhs == rhs
+
+
 def search_any_regex(re_set: Iterable[re.Pattern[str]], s: str) -> bool:
     """
     Convenience function that checks a string against many regular expressions
diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 0e02248..624448c 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -32,7 +32,7 @@ from conda_recipe_manager.parser._traverse import (
     traverse_with_index,
 )
 from conda_recipe_manager.parser._types import Regex, StrStack
-from conda_recipe_manager.parser._utils import str_to_stack_path
+from conda_recipe_manager.parser._utils import is_json_equal, str_to_stack_path
 from conda_recipe_manager.parser.enums import SelectorConflictMode
 from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
 from conda_recipe_manager.parser.recipe_reader import RecipeReader
@@ -546,7 +546,7 @@ class RecipeParser(RecipeReader):
         :returns: True if the target value is equal to the provided value. False otherwise.
         """
         try:
-            return self.get_value(path) == value
+            return is_json_equal(self.get_value(path), value)
         except KeyError:
             # Path not found
             return False
-- 
2.43.0


From 62844d8e4bb70e21af1a17de10bcfdb110efaa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:26 +0000
Subject: [PATCH 66/76] fix: a patch-move of a path that does not exist to
 itself fails

---
 conda_recipe_manager/parser/recipe_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 624448c..caa27ce 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -610,9 +610,9 @@ class RecipeParser(RecipeReader):
         op: Final[str] = cast(str, patch["op"])
 
         # A no-op move is silly, but we might as well make it efficient AND ensure a no-op move doesn't corrupt our
-        # modification flag.
+        # modification flag. As per the RFC, the value to move must exist.
         if op == "move" and path == patch["from"]:
-            return True
+            return self.contains_value(path)
 
         # Both versions of the path are sent over so that the op can easily use both private and public functions
         # (without incurring even more conversions between path types).
-- 
2.43.0


From 8d65668e043dad1d74459d573668796c4d5bf2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:52 +0000
Subject: [PATCH 67/76] fix: the target of a patch-move is found after the
 value is removed

---
 conda_recipe_manager/parser/recipe_parser.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index caa27ce..759fab4 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -500,12 +500,7 @@ class RecipeParser(RecipeReader):
         if path_stack[-len(path_stack_from) :] == path_stack_from:
             return False
 
-        # Validate that `add` will succeed before we `remove` anything
-        node, virt_idx, _, _, _ = self._patch_add_find_target(path_stack.copy())
-        if not RecipeParser._is_valid_patch_node(node, virt_idx):
-            return False
-
-        # The position to add to may not exist anymore once the original value is removed. In that case, nothing moves.
+        # The position to add to is the one after the original value is removed. If it does not exist, nothing moves.
         original_root = deepcopy(self._root)
         # Objects in lists may not be empty, so a key that gets another name is added before the old one is removed.
         is_new_name = path_stack[1:] == path_stack_from[1:] and path_stack[:1] != path_stack_from[:1]
-- 
2.43.0


From b3739fbf38aa038c58c67026151632531ad306de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:44 +0000
Subject: [PATCH 68/76] fix: keys without a value are null to a JSON patch

---
 conda_recipe_manager/parser/recipe_parser.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 759fab4..63f843f 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -477,6 +477,19 @@ class RecipeParser(RecipeReader):
         node.children = new_children
         return True
 
+    def _get_patch_value(self, path: str) -> JsonType:
+        """
+        Retrieves the value a JSON patch refers to. Keys without a value are null.
+
+        :param path: Path to the value.
+        :raises KeyError: If the path is not found.
+        :returns: The value at the path.
+        """
+        node = traverse(self._root, str_to_stack_path(path))
+        if node is not None and node.is_empty_key():
+            return None
+        return self.get_value(path)
+
     def _patch_move(self, path_stack: StrStack, value_from: str) -> bool:
         """
         Performs a JSON patch `add` operation.
@@ -491,7 +504,7 @@ class RecipeParser(RecipeReader):
         # So to save on development and maintenance, that is how this op is written.
         original_value: JsonType
         try:
-            original_value = self.get_value(value_from)
+            original_value = self._get_patch_value(value_from)
         except KeyError:
             return False
 
@@ -526,7 +539,7 @@ class RecipeParser(RecipeReader):
         # So to save on development and maintenance, that is how this op is written.
         original_value: JsonType
         try:
-            original_value = self.get_value(value_from)
+            original_value = self._get_patch_value(value_from)
         except KeyError:
             return False
 
@@ -541,7 +554,7 @@ class RecipeParser(RecipeReader):
         :returns: True if the target value is equal to the provided value. False otherwise.
         """
         try:
-            return is_json_equal(self.get_value(path), value)
+            return is_json_equal(self._get_patch_value(path), value)
         except KeyError:
             # Path not found
             return False
-- 
2.43.0


From 29bd043919b927752ac95930f62b4f5895fcac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:00 +0000
Subject: [PATCH 69/76] fix: convert the dot functions of all substitutions of
 a line to pipes

---
 conda_recipe_manager/parser/_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index b312892..1eeddad 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -165,7 +165,7 @@ class Regex:
         r"(\{%\s*set.*=.*)\.([a-zA-Z0-9_]+\(.*\)\s*%\})"
     )
     PRE_PROCESS_JINJA_DOT_FUNCTION_IN_SUBSTITUTION: Final[re.Pattern[str]] = re.compile(
-        r"(\{\{\s*[a-zA-Z0-9_]*.*)\.([a-zA-Z0-9_]*\(.*\)\s*\}\})"
+        r"(\{\{\s*[a-zA-Z0-9_]*(?:(?!\}\}).)*)\.([a-zA-Z0-9_]*\((?:(?!\}\}).)*\)\s*\}\})"
     )
     # Strips empty parenthesis artifacts on functions like `| lower`
     PRE_PROCESS_JINJA_DOT_FUNCTION_STRIP_EMPTY_PARENTHESIS: Final[re.Pattern[str]] = re.compile(
-- 
2.43.0


From 6af1dcf6bdbdff4e9c0f802158ea1c7614c09356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:06 +0000
Subject: [PATCH 70/76] fix: names, outputs and variables of keys without a
 value are none, not the key

---
 conda_recipe_manager/parser/recipe_reader.py  | 24 +++++++++++++++----
 .../parser/recipe_reader_deps.py              | 13 +++++-----
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index aa6877b..849dd2d 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -382,7 +382,7 @@ class RecipeReader(IsModifiable):
                     except Exception:  # pylint: disable=broad-exception-caught
                         self._vars_tbl[key] = value
             case SchemaVersion.V1:
-                self._vars_tbl = cast(dict[str, JsonType], self.get_value("/context", {}))
+                self._vars_tbl = cast(dict[str, JsonType], self._get_value_or_default("/context", {}))
 
     def _rebuild_selectors(self) -> None:
         """
@@ -937,6 +937,20 @@ class RecipeReader(IsModifiable):
             return [return_value]
         return return_value
 
+    def _get_value_or_default(self, path: str, default: JsonType, sub_vars: bool = False) -> JsonType:
+        """
+        Retrieves a value at a given path, like `get_value()`. The default is also used for keys without a value.
+
+        :param path: JSON patch (RFC 6902)-style path to a value.
+        :param default: Value to return if there is no value.
+        :param sub_vars: (Optional) See `get_value()`.
+        :returns: If found, the value in the recipe at that path. Otherwise, the default value.
+        """
+        node = traverse(self._root, str_to_stack_path(path))
+        if node is None or node.is_empty_key():
+            return default
+        return self.get_value(path, default, sub_vars)
+
     def find_value(self, value: Primitives) -> list[str]:
         """
         Given a value, find all the paths that contain that value.
@@ -980,8 +994,8 @@ class RecipeReader(IsModifiable):
         """
 
         if self._schema_version == SchemaVersion.V1 and self.is_multi_output():
-            return optional_str(self.get_value("/recipe/name", sub_vars=True, default=None))
-        return optional_str(self.get_value("/package/name", sub_vars=True, default=None))
+            return optional_str(self._get_value_or_default("/recipe/name", sub_vars=True, default=None))
+        return optional_str(self._get_value_or_default("/package/name", sub_vars=True, default=None))
 
     ## General Convenience Functions ##
 
@@ -1007,7 +1021,7 @@ class RecipeReader(IsModifiable):
         """
         paths: list[str] = ["/"]
 
-        outputs: Final[list[str]] = cast(list[str], self.get_value("/outputs", []))
+        outputs: Final[list[str]] = cast(list[str], self._get_value_or_default("/outputs", []))
         for i in range(len(outputs)):
             paths.append(f"/outputs/{i}")
 
@@ -1065,7 +1079,7 @@ class RecipeReader(IsModifiable):
         #   https://github.com/AnacondaRecipes/curl-feedstock/blob/master/recipe/meta.yaml
         _scan_requirements()
 
-        outputs = cast(list[JsonType], self.get_value("/outputs", []))
+        outputs = cast(list[JsonType], self._get_value_or_default("/outputs", []))
         for i in range(len(outputs)):
             _scan_requirements(f"/outputs/{i}")
 
diff --git a/conda_recipe_manager/parser/recipe_reader_deps.py b/conda_recipe_manager/parser/recipe_reader_deps.py
index fea34f9..b714b4f 100644
--- a/conda_recipe_manager/parser/recipe_reader_deps.py
+++ b/conda_recipe_manager/parser/recipe_reader_deps.py
@@ -88,13 +88,12 @@ class RecipeReaderDeps(RecipeReader):
             "/package/name" if self.is_multi_output() and self._schema_version == SchemaVersion.V1 else "/name"
         )
         for path in self.get_package_paths():
-            try:
-                if path == ROOT_NODE_VALUE:
-                    name = cast(str, self.get_value(root_name_path, sub_vars=True))
-                else:
-                    name = cast(str, self.get_value(RecipeReader.append_to_path(path, name_path), sub_vars=True))
-            except KeyError as e:
-                raise KeyError(f"Could not find a package name associated with path: {path}") from e
+            package_name_path = (
+                root_name_path if path == ROOT_NODE_VALUE else RecipeReader.append_to_path(path, name_path)
+            )
+            name = cast(Optional[str], self._get_value_or_default(package_name_path, None, sub_vars=True))
+            if name is None:
+                raise KeyError(f"Could not find a package name associated with path: {path}")
 
             if name in package_tbl:
                 raise ValueError(f"Duplicate package name found: {name}")
-- 
2.43.0


From aef7944adbe651aafc5b2c05b0de003e6cbff131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:15 +0000
Subject: [PATCH 71/76] fix: fields without a value are converted as such, not
 as their names

---
 .../parser/recipe_parser_convert.py           | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 99fa9d6..45cef2f 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -58,6 +58,16 @@ class RecipeParserConvert(RecipeParser):
             self._msg_tbl.add_message(MessageCategory.ERROR, f"Failed to patch: {patch}")
         return result
 
+    def _get_v1_value(self, path: str, default: JsonType) -> JsonType:
+        """
+        Convenience function that retrieves a value to convert. Keys without a value do not hold anything to convert.
+
+        :param path: Path to the value
+        :param default: Value to return if there is no value.
+        :returns: If found, the value at that path. Otherwise, the default value.
+        """
+        return self._v1_recipe._get_value_or_default(path, default)  # pylint: disable=protected-access
+
     def _patch_add_missing_path(self, base_path: str, ext: str, value: JsonType = None) -> None:
         """
         Convenience function that constructs missing paths. Useful when you have to construct more than 1 path level at
@@ -325,7 +335,7 @@ class RecipeParserConvert(RecipeParser):
         script_env_path: Final[str] = RecipeParser.append_to_path(build_path, "/script_env")
         # The environment list could contain dictionaries if the variables are conditionally included.
         script_env_lst: Final[list[str | dict[str, str]]] = cast(
-            list[str | dict[str, str]], self._v1_recipe.get_value(script_env_path, [])
+            list[str | dict[str, str]], self._get_v1_value(script_env_path, [])
         )
         if not script_env_lst:
             return
@@ -368,7 +378,7 @@ class RecipeParserConvert(RecipeParser):
         set_key_conditionally(cast(dict[str, JsonType], new_script_obj), "env", cast(JsonType, new_env))
         set_key_conditionally(cast(dict[str, JsonType], new_script_obj), "secrets", cast(JsonType, new_secrets))
 
-        script_value = self._v1_recipe.get_value(script_path, "")
+        script_value = self._get_v1_value(script_path, "")
         patch_op: Final[str] = "replace" if script_value else "add"
         # TODO: Simple script files should be set as `file` not `content`
         set_key_conditionally(cast(dict[str, JsonType], new_script_obj), "content", script_value)
@@ -480,7 +490,7 @@ class RecipeParserConvert(RecipeParser):
         :param about_path: Path to the `about` section, where the `license` field is located.
         """
         license_path: Final[str] = RecipeParser.append_to_path(about_path, "/license")
-        old_license: Final[Optional[str]] = cast(Optional[str], self._v1_recipe.get_value(license_path, default=None))
+        old_license: Final[Optional[str]] = cast(Optional[str], self._get_v1_value(license_path, None))
         if old_license is None:
             self._msg_tbl.add_message(MessageCategory.WARNING, f"No `license` provided in `{about_path}`")
             return
@@ -538,7 +548,7 @@ class RecipeParserConvert(RecipeParser):
             # R packages like to use multiline strings without multiline markers, which get interpreted as list members
             # TODO address this at parse-time, adding a new multiline mode
             summary_path = RecipeParser.append_to_path(about_path, "/summary")
-            summary = self._v1_recipe.get_value(summary_path, "")
+            summary = self._get_v1_value(summary_path, "")
             if isinstance(summary, list):
                 self._patch_and_log(
                     {"op": "replace", "path": summary_path, "value": "\n".join(cast(list[str], summary))}
@@ -568,7 +578,7 @@ class RecipeParserConvert(RecipeParser):
             return
 
         commands_path: Final[str] = RecipeParser.append_to_path(test_path, "/commands")
-        commands = cast(list[str], self._v1_recipe.get_value(commands_path, []))
+        commands = cast(list[str], self._get_v1_value(commands_path, []))
         pip_check = False
         for i, command in enumerate(commands):
             # TODO Future: handle selector cases (pip check will be in the `then` section of a dictionary object)
@@ -611,7 +621,7 @@ class RecipeParserConvert(RecipeParser):
             # created in the path being moved.
             test_files_path = RecipeParser.append_to_path(test_path, "/files")
             if self._v1_recipe.contains_value(test_files_path):
-                test_files_value = self._v1_recipe.get_value(test_files_path)
+                test_files_value = self._get_v1_value(test_files_path, None)
                 # TODO: Fix, replace does not work here, produces `- null`, Issue #20
                 # self._patch_and_log({"op": "replace", "path": test_files_path, "value": None})
                 self._patch_and_log({"op": "remove", "path": test_files_path})
@@ -648,7 +658,7 @@ class RecipeParserConvert(RecipeParser):
 
             # Move `test` to `tests` and encapsulate the pre-existing object into a list
             new_test_path = f"{test_path}s"
-            test_element = cast(dict[str, JsonType], self._v1_recipe.get_value(test_path))
+            test_element = cast(dict[str, JsonType], self._get_v1_value(test_path, {}))
             test_array: list[JsonType] = []
             # There are 3 types of test elements. We break them out of the original object, if they exist.
             # `Python` Test Element
-- 
2.43.0


From c4d4acf133b78efd1edd518551164087a4c04832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:16 +0000
Subject: [PATCH 72/76] fix: patch-add at index 0 of an empty list

---
 conda_recipe_manager/parser/recipe_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 63f843f..b61f4cb 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -333,6 +333,9 @@ class RecipeParser(RecipeReader):
         # As per the RFC, an index that equals the number of elements in the list also appends to the list.
         elif node is not None and virt_idx > INVALID_IDX:
             idx_map = remap_child_indices_virt_to_phys(node.children)
+            # Empty lists are stored as a value.
+            if virt_idx == 0 and node.is_single_key() and node.children[0].value == []:
+                return node, INVALID_IDX, INVALID_IDX, path_to_create, True
             if virt_idx == len(idx_map) and idx_map and node.children[idx_map[0]].list_member_flag:
                 return node, INVALID_IDX, INVALID_IDX, path_to_create, True
 
-- 
2.43.0


From c3192bed5dafa5021466436c110f48000ce54f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:42 +0000
Subject: [PATCH 73/76] fix: lists and objects of a recipe are not shared with
 the caller

---
 conda_recipe_manager/parser/recipe_parser.py | 3 ++-
 conda_recipe_manager/parser/recipe_reader.py | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index b61f4cb..e152743 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -103,7 +103,8 @@ class RecipeParser(RecipeReader):
         :param var: Variable to modify
         :param value: Value to set
         """
-        self._vars_tbl[var] = value
+        # The caller may go on to edit a list or object.
+        self._vars_tbl[var] = deepcopy(value)
         self._is_modified = True
 
     def del_variable(self, var: str) -> None:
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 849dd2d..299856a 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -10,6 +10,7 @@ import hashlib
 import json
 import re
 import sys
+from copy import deepcopy
 from typing import Callable, Final, Optional, cast, no_type_check
 
 import yaml
@@ -838,7 +839,8 @@ class RecipeReader(IsModifiable):
             data.setdefault(cast(str, child.value), {})
             self._render_object_tree(child, replace_variables, data)
 
-        return data
+        # Empty collections are stored as values. Editing what is returned does not change the recipe.
+        return deepcopy(data)
 
     ## YAML Access Functions ##
 
@@ -933,6 +935,8 @@ class RecipeReader(IsModifiable):
             if not isinstance(parsed_value, list) and len(node.children) == 1 and node.children[0].list_member_flag:
                 return [parsed_value]
             return parsed_value
+        # Empty collections are stored as values. Editing what is returned does not change the recipe.
+        return_value = deepcopy(return_value)
         if len(node.children) == 1 and node.children[0].list_member_flag:
             return [return_value]
         return return_value
@@ -1118,7 +1122,8 @@ class RecipeReader(IsModifiable):
             if default == RecipeReader._sentinel or isinstance(default, SentinelType):
                 raise KeyError
             return default
-        return self._vars_tbl[var]
+        # Editing a list or object returned does not change the recipe.
+        return deepcopy(self._vars_tbl[var])
 
     def get_variable_references(self, var: str) -> list[str]:
         """
-- 
2.43.0


From 9a1afc7acc24ffe97d681142eecac013c8563041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:20 +0000
Subject: [PATCH 74/76] fix: only dependencies are removed by remove_dependency

---
 conda_recipe_manager/parser/recipe_parser_deps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index f7f1232..7b4acea 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -217,4 +217,8 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
         :param dep: Dependency to remove
         :returns: The result of the underlying patch command, indicating that a change occurred.
         """
+        # Validate the Dependency, in case the user rolled-their-own.
+        if not RecipeParserDeps._is_valid_dependency_path(dep.path):
+            return False
+
         return self.patch({"op": "remove", "path": dep.path})
-- 
2.43.0


From b4385dd7b822fff59f4c36c7572e3ac547b70780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:17 +0000
Subject: [PATCH 75/76] fix: tags and branches of the same name are told apart
 when fetching from git

---
 conda_recipe_manager/fetcher/git_artifact_fetcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/git_artifact_fetcher.py b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
index dc9ec40..bf3e2ad 100644
--- a/conda_recipe_manager/fetcher/git_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
@@ -80,11 +80,14 @@ class GitArtifactFetcher(BaseArtifactFetcher):
         # With that said, we maintain an order of operations to ensure the interpretation is deterministic. We prefer
         # tagged versions as that makes the most sense for most feedstock repositories.
         # NOTE: These checkout commands will leave the temp repo in a detached head state.\
+        # NOTE: A tag and a branch may have the same name. Full names of references are not ambiguous.
         if self._git_target.tag is not None:
-            return self._git_target.tag
+            return f"refs/tags/{self._git_target.tag}"
         elif self._git_target.rev is not None:
             return self._git_target.rev
         elif self._git_target.branch is not None:
+            if self._is_remote:
+                return f"refs/remotes/origin/{self._git_target.branch}"
             return self._git_target.branch
         return None
 
-- 
2.43.0


From 2d6951a2746594b3699f37d0c5208e9798c99580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:17 +0000
Subject: [PATCH 76/76] fix: output of rattler-build that is not UTF-8 does not
 stop the bulk build

---
 conda_recipe_manager/commands/rattler_bulk_build.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conda_recipe_manager/commands/rattler_bulk_build.py b/conda_recipe_manager/commands/rattler_bulk_build.py
index 689316a..30d44a6 100644
--- a/conda_recipe_manager/commands/rattler_bulk_build.py
+++ b/conda_recipe_manager/commands/rattler_bulk_build.py
@@ -55,6 +55,8 @@ def build_recipe(file: Path, path: Path, args: list[str]) -> tuple[str, BuildRes
         output: Final[subprocess.CompletedProcess[str]] = subprocess.run(
             cmd,
             encoding="utf-8",
+            # Output that is not UTF-8 does not stop the other builds.
+            errors="replace",
             capture_output=True,
             check=False,
             timeout=DEFAULT_RATTLER_BUILD_TIMEOUT,
-- 
2.43.0

