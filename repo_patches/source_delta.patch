From 1af3811ea7ddb9d6242f7989e18f4c70f15feead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 01/23] fix: drop OPT sentinels from nested attrs in to_dict()

---
 atlas_doc_parser/mark_or_node.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/mark_or_node.py b/atlas_doc_parser/mark_or_node.py
index 984aabf..e69746d 100644
--- a/atlas_doc_parser/mark_or_node.py
+++ b/atlas_doc_parser/mark_or_node.py
@@ -56,7 +56,11 @@ class Base(BaseFrozenModel):
         """
         Convert the dataclass to a complete dictionary with all fields.
         """
-        return remove_optional(**dataclasses.asdict(self))
+        # Drop ``OPT`` at every level, nested dataclasses (e.g. ``attrs``) included
+        return dataclasses.asdict(
+            self,
+            dict_factory=lambda items: remove_optional(**dict(items)),
+        )
 
     def to_kwargs(self) -> T_DATA:
         """
-- 
2.43.0


From c3f320b4d6921fbb8838967c344aae5d681f59ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 02/23] fix: propagate ignore_error to every nested
 to_markdown() call

---
 atlas_doc_parser/markdown_helpers.py        | 6 +++---
 atlas_doc_parser/nodes/node_bullet_list.py  | 7 +++++--
 atlas_doc_parser/nodes/node_ordered_list.py | 7 +++++--
 atlas_doc_parser/nodes/node_table.py        | 2 +-
 atlas_doc_parser/nodes/node_task_list.py    | 2 +-
 5 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 3eceed0..c4f500d 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -91,7 +91,7 @@ def content_to_markdown(
         lst = list()
         for node in content:
             try:
-                md = node.to_markdown()
+                md = node.to_markdown(ignore_error=ignore_error)
                 lst.append(md)
             except Exception as e:  # pragma: no cover
                 if ignore_error:
@@ -147,9 +147,9 @@ def doc_content_to_markdown(
                         TypeEnum.codeBlock,
                     ]
                 ):
-                    md = "\n" + node.to_markdown() + "\n"
+                    md = "\n" + node.to_markdown(ignore_error=ignore_error) + "\n"
                 else:
-                    md = node.to_markdown()
+                    md = node.to_markdown(ignore_error=ignore_error)
                 # print(f"{node = }")  # for debug only
                 # print(f"{md = }")  # for debug only
                 lst.append(md)
diff --git a/atlas_doc_parser/nodes/node_bullet_list.py b/atlas_doc_parser/nodes/node_bullet_list.py
index 285ca45..94e7337 100644
--- a/atlas_doc_parser/nodes/node_bullet_list.py
+++ b/atlas_doc_parser/nodes/node_bullet_list.py
@@ -76,7 +76,10 @@ class NodeBulletList(BaseNode):
                     if node.is_type_of(TypeEnum.bulletList):
                         # Nested list - increase level
                         try:
-                            md = node.to_markdown(level=level + 1)
+                            md = node.to_markdown(
+                                level=level + 1,
+                                ignore_error=ignore_error,
+                            )
                             content_lines.append(md)
                         except Exception as e:
                             if ignore_error:
@@ -86,7 +89,7 @@ class NodeBulletList(BaseNode):
                     else:
                         # Regular content (like paragraph)
                         try:
-                            md = node.to_markdown().rstrip()
+                            md = node.to_markdown(ignore_error=ignore_error).rstrip()
                             content_lines.append(md)
                         except Exception as e:
                             if ignore_error:
diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index 250772b..c38b68c 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -98,7 +98,10 @@ class NodeOrderedList(BaseNode):
                     if node.is_type_of(TypeEnum.orderedList):
                         # Nested list - increase level
                         try:
-                            md = node.to_markdown(level=level + 1)
+                            md = node.to_markdown(
+                                level=level + 1,
+                                ignore_error=ignore_error,
+                            )
                             content_lines.append(md)
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
@@ -108,7 +111,7 @@ class NodeOrderedList(BaseNode):
                     else:
                         # Regular content (like paragraph)
                         try:
-                            md = node.to_markdown().rstrip()
+                            md = node.to_markdown(ignore_error=ignore_error).rstrip()
                             content_lines.append(md)
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
diff --git a/atlas_doc_parser/nodes/node_table.py b/atlas_doc_parser/nodes/node_table.py
index ca343e1..2ea786b 100644
--- a/atlas_doc_parser/nodes/node_table.py
+++ b/atlas_doc_parser/nodes/node_table.py
@@ -76,7 +76,7 @@ class NodeTable(BaseNode):
         lines = list()
         for row in self.content:
             try:
-                md = row.to_markdown()
+                md = row.to_markdown(ignore_error=ignore_error)
                 lines.append(md)
                 if row.content[0].is_type_of(TypeEnum.tableHeader):
                     lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
diff --git a/atlas_doc_parser/nodes/node_task_list.py b/atlas_doc_parser/nodes/node_task_list.py
index de78202..256c119 100644
--- a/atlas_doc_parser/nodes/node_task_list.py
+++ b/atlas_doc_parser/nodes/node_task_list.py
@@ -91,7 +91,7 @@ class NodeTaskList(BaseNode):
                 content_parts = []
                 for node in item.content:
                     try:
-                        md = node.to_markdown()
+                        md = node.to_markdown(ignore_error=ignore_error)
                         content_parts.append(md)
                     except Exception as e:
                         if ignore_error:
-- 
2.43.0


From 1705ca70b34f4e88696aa166d5ea2e3ad054d279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 03/23] fix: orderedList without attrs can be converted to
 markdown

---
 atlas_doc_parser/nodes/node_ordered_list.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index c38b68c..910c27a 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -85,7 +85,11 @@ class NodeOrderedList(BaseNode):
         indent = "    " * level  # 4 spaces per level
 
         # Start numbering from attrs.order (or 1 for inner levels)
-        if level == 0 and isinstance(self.attrs.order, int):
+        if (
+            level == 0
+            and not self.is_opt(self.attrs)
+            and isinstance(self.attrs.order, int)
+        ):
             current_num = self.attrs.order
         else:
             current_num = 1
-- 
2.43.0


From 2c6dd4ec6768c1cbf8731dc06b0dedf94045322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 04/23] fix: taskItem without content can be converted to
 markdown

---
 atlas_doc_parser/nodes/node_task_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_task_list.py b/atlas_doc_parser/nodes/node_task_list.py
index 256c119..03bfefe 100644
--- a/atlas_doc_parser/nodes/node_task_list.py
+++ b/atlas_doc_parser/nodes/node_task_list.py
@@ -89,7 +89,7 @@ class NodeTaskList(BaseNode):
             if item.is_type_of(TypeEnum.taskItem):
                 # Process the task item content (text nodes)
                 content_parts = []
-                for node in item.content:
+                for node in [] if item.is_opt(item.content) else item.content:
                     try:
                         md = node.to_markdown(ignore_error=ignore_error)
                         content_parts.append(md)
-- 
2.43.0


From a5d5103d5645c2bed34e156d0fb533fc4a713334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 05/23] fix: indentation mark keeps the text it is applied to

---
 atlas_doc_parser/marks/mark_indentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/marks/mark_indentation.py b/atlas_doc_parser/marks/mark_indentation.py
index 64c6a5f..4fbd406 100644
--- a/atlas_doc_parser/marks/mark_indentation.py
+++ b/atlas_doc_parser/marks/mark_indentation.py
@@ -36,4 +36,4 @@ class MarkIndentation(BaseMark):
         self,
         text: str,
     ) -> str:
-        return self.attrs.level * "\t"
+        return self.attrs.level * "\t" + text
-- 
2.43.0


From 989f2c2b5171c56c64359a19871df19b2046b055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 06/23] fix: export the ParamError that parameter validation
 raises

---
 atlas_doc_parser/exc.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/atlas_doc_parser/exc.py b/atlas_doc_parser/exc.py
index 39623c1..93f790a 100644
--- a/atlas_doc_parser/exc.py
+++ b/atlas_doc_parser/exc.py
@@ -4,11 +4,8 @@
 Exceptions for atlas_doc_parser.
 """
 
-
-class ParamError(Exception):
-    """Raised when a parameter validation fails."""
-
-    pass
+# Raised when a parameter validation fails, e.g. a required field is missing.
+from func_args.api import ParamError
 
 
 class UnimplementedTypeError(Exception):
-- 
2.43.0


From e834ee8f130e6af1c820a9353f3406c1d9e905e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 07/23] fix: a missing required mark attribute raises
 ParamError

---
 atlas_doc_parser/marks/mark_alignment.py        | 2 +-
 atlas_doc_parser/marks/mark_background_color.py | 2 +-
 atlas_doc_parser/marks/mark_breakout.py         | 2 +-
 atlas_doc_parser/marks/mark_data_consumer.py    | 2 +-
 atlas_doc_parser/marks/mark_fragment.py         | 2 +-
 atlas_doc_parser/marks/mark_text_color.py       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/atlas_doc_parser/marks/mark_alignment.py b/atlas_doc_parser/marks/mark_alignment.py
index 163d95d..0aef2d2 100644
--- a/atlas_doc_parser/marks/mark_alignment.py
+++ b/atlas_doc_parser/marks/mark_alignment.py
@@ -18,7 +18,7 @@ class MarkAlignmentAttrs(Base):
         Valid values are ``"center"`` or ``"end"``.
     """
 
-    align: T.Literal["center", "end"]
+    align: T.Literal["center", "end"] = REQ
 
 
 @dataclasses.dataclass(frozen=True)
diff --git a/atlas_doc_parser/marks/mark_background_color.py b/atlas_doc_parser/marks/mark_background_color.py
index 23b8733..4bb419e 100644
--- a/atlas_doc_parser/marks/mark_background_color.py
+++ b/atlas_doc_parser/marks/mark_background_color.py
@@ -12,7 +12,7 @@ from ..mark_or_node import Base, BaseMark
 class MarkBackgroundColorAttrs(Base):
     """Attributes for :class:`MarkBackgroundColor`."""
 
-    color: str
+    color: str = REQ
 
 
 @dataclasses.dataclass(frozen=True)
diff --git a/atlas_doc_parser/marks/mark_breakout.py b/atlas_doc_parser/marks/mark_breakout.py
index 683a42c..2b4e27b 100644
--- a/atlas_doc_parser/marks/mark_breakout.py
+++ b/atlas_doc_parser/marks/mark_breakout.py
@@ -18,7 +18,7 @@ class MarkBreakoutAttrs(Base):
     :param width: Optional. Width value.
     """
 
-    mode: T.Literal["wide", "full-width"]
+    mode: T.Literal["wide", "full-width"] = REQ
     width: int = OPT
 
 
diff --git a/atlas_doc_parser/marks/mark_data_consumer.py b/atlas_doc_parser/marks/mark_data_consumer.py
index 7e7f10c..f6a3bb8 100644
--- a/atlas_doc_parser/marks/mark_data_consumer.py
+++ b/atlas_doc_parser/marks/mark_data_consumer.py
@@ -16,7 +16,7 @@ class MarkDataConsumerAttrs(Base):
     :param sources: Required. An array of source identifiers (minimum 1 item).
     """
 
-    sources: list[str]
+    sources: list[str] = REQ
 
 
 @dataclasses.dataclass(frozen=True)
diff --git a/atlas_doc_parser/marks/mark_fragment.py b/atlas_doc_parser/marks/mark_fragment.py
index 027969a..ad2f5cb 100644
--- a/atlas_doc_parser/marks/mark_fragment.py
+++ b/atlas_doc_parser/marks/mark_fragment.py
@@ -17,7 +17,7 @@ class MarkFragmentAttrs(Base):
     :param name: Optional. A human-readable name for the fragment.
     """
 
-    localId: str
+    localId: str = REQ
     name: str = OPT
 
 
diff --git a/atlas_doc_parser/marks/mark_text_color.py b/atlas_doc_parser/marks/mark_text_color.py
index d9e9cde..111010f 100644
--- a/atlas_doc_parser/marks/mark_text_color.py
+++ b/atlas_doc_parser/marks/mark_text_color.py
@@ -12,7 +12,7 @@ from ..mark_or_node import Base, BaseMark
 class MarkTextColorAttrs(Base):
     """Attributes for :class:`MarkTextColor`."""
 
-    color: str
+    color: str = REQ
 
 
 @dataclasses.dataclass(frozen=True)
-- 
2.43.0


From 460dd6ec458bb402d2d628b4a9d26f037cbd5a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 08/23] fix: a table with header cells in every row gets a
 single delimiter row

---
 atlas_doc_parser/nodes/node_table.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_table.py b/atlas_doc_parser/nodes/node_table.py
index 2ea786b..410821d 100644
--- a/atlas_doc_parser/nodes/node_table.py
+++ b/atlas_doc_parser/nodes/node_table.py
@@ -74,11 +74,19 @@ class NodeTable(BaseNode):
         ignore_error: bool = False,
     ) -> str:
         lines = list()
+        has_delimiter = False
         for row in self.content:
             try:
                 md = row.to_markdown(ignore_error=ignore_error)
                 lines.append(md)
-                if row.content[0].is_type_of(TypeEnum.tableHeader):
+                # a markdown table has a single delimiter row, even if the first
+                # column of every row is a header
+                if (
+                    not has_delimiter
+                    and row.content
+                    and row.content[0].is_type_of(TypeEnum.tableHeader)
+                ):
+                    has_delimiter = True
                     lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
             except Exception as e:  # pragma: no cover
                 if ignore_error:
-- 
2.43.0


From 1660830d690fb3a8dea7e706fd8839ab929b21e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 09/23] fix: code that contains a fence does not end its code
 block

---
 atlas_doc_parser/nodes/node_code_block.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_code_block.py b/atlas_doc_parser/nodes/node_code_block.py
index e37f469..ab353f7 100644
--- a/atlas_doc_parser/nodes/node_code_block.py
+++ b/atlas_doc_parser/nodes/node_code_block.py
@@ -68,4 +68,8 @@ class NodeCodeBlock(BaseNode):
                 )
         if lang == "none":
             lang = ""
-        return f"```{lang}\n{code}\n```"
+        # the fence has to be longer than any run of backticks in the code
+        fence = "```"
+        while fence in code:
+            fence += "`"
+        return f"{fence}{lang}\n{code}\n{fence}"
-- 
2.43.0


From 6987fd2ed728268825eb825da6a155f462d1e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 10/23] fix: collapse any number of consecutive blank lines

---
 atlas_doc_parser/markdown_helpers.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index c4f500d..bfb32e6 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -15,6 +15,7 @@ Key concepts:
 - Content nodes can contain child nodes that need recursive conversion
 """
 
+import re
 import typing as T
 
 from func_args.api import OPT
@@ -27,7 +28,6 @@ if T.TYPE_CHECKING:  # pragma: no cover
 
 def strip_double_empty_line(
     text: str,
-    n: int = 3,
 ) -> str:
     """
     Remove excessive consecutive empty lines from text.
@@ -41,8 +41,6 @@ def strip_double_empty_line(
     (3+ newlines) down to exactly one blank line (2 newlines).
 
     :param text: The input text that may contain excessive blank lines.
-    :param n: Number of replacement iterations to perform. Default is 3,
-        which handles up to 5 consecutive newlines being reduced to 2.
     :return: Text with at most one consecutive blank line (two newlines).
 
     Example::
@@ -50,9 +48,7 @@ def strip_double_empty_line(
         >>> strip_double_empty_line("Hello\\n\\n\\n\\nWorld")
         'Hello\\n\\nWorld'
     """
-    for _ in range(n):
-        text = text.replace("\n\n\n", "\n\n")
-    return text
+    return re.sub(r"\n{3,}", "\n\n", text)
 
 
 def content_to_markdown(
-- 
2.43.0


From fedb96c13e67c4b347e1d35768ed25c5e643383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 11/23] fix: keep blank lines inside fenced code blocks

---
 atlas_doc_parser/markdown_helpers.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index bfb32e6..81a3d3a 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -26,6 +26,16 @@ if T.TYPE_CHECKING:  # pragma: no cover
     from .mark_or_node import T_MARK, T_NODE
 
 
+# A fenced code block (maybe the first block of a list item), or blank lines
+_FENCE_OR_BLANK_LINES = re.compile(
+    r"(?P<fence>^ *(?:(?:-|\d+\.) )*(?P<ticks>`{3,})[^`\n]*\n"
+    r"(?:.*?\n)??"
+    r" *(?P=ticks)`* *$)"
+    r"|\n{3,}",
+    flags=re.MULTILINE | re.DOTALL,
+)
+
+
 def strip_double_empty_line(
     text: str,
 ) -> str:
@@ -38,7 +48,8 @@ def strip_double_empty_line(
     when multiple blocks are adjacent, which looks ugly in the final output.
 
     This function normalizes the output by collapsing excessive blank lines
-    (3+ newlines) down to exactly one blank line (2 newlines).
+    (3+ newlines) down to exactly one blank line (2 newlines). Blank lines inside
+    a fenced code block are part of the code, so they are left alone.
 
     :param text: The input text that may contain excessive blank lines.
     :return: Text with at most one consecutive blank line (two newlines).
@@ -48,7 +59,7 @@ def strip_double_empty_line(
         >>> strip_double_empty_line("Hello\\n\\n\\n\\nWorld")
         'Hello\\n\\nWorld'
     """
-    return re.sub(r"\n{3,}", "\n\n", text)
+    return _FENCE_OR_BLANK_LINES.sub(lambda m: m.group("fence") or "\n\n", text)
 
 
 def content_to_markdown(
-- 
2.43.0


From 8c9334bf4c3cb19a9021baf07f4670d0172732cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 12/23] fix: separate tables, task and decision lists, images
 and extensions from the next block

---
 atlas_doc_parser/markdown_helpers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 81a3d3a..e9a9d81 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -121,7 +121,8 @@ def doc_content_to_markdown(
     **block-level content** with additional processing:
 
     1. Joins blocks with newlines (not empty string)
-    2. Adds extra blank lines around lists and code blocks for proper rendering
+    2. Adds extra blank lines around lists, code blocks and other block elements
+       that do not end with a blank line themselves, for proper rendering
     3. Cleans up excessive blank lines using :func:`strip_double_empty_line`
 
     The extra padding around lists and code blocks is needed because some
@@ -152,6 +153,11 @@ def doc_content_to_markdown(
                         TypeEnum.bulletList,
                         TypeEnum.orderedList,
                         TypeEnum.codeBlock,
+                        TypeEnum.taskList,
+                        TypeEnum.decisionList,
+                        TypeEnum.table,
+                        TypeEnum.mediaSingle,
+                        TypeEnum.extension,
                     ]
                 ):
                     md = "\n" + node.to_markdown(ignore_error=ignore_error) + "\n"
-- 
2.43.0


From f0318f5289e8276368334cdd764951ea22e64f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 13/23] fix: blocks in a table cell never share a line

---
 atlas_doc_parser/markdown_helpers.py        | 18 ++++++++++++++++++
 atlas_doc_parser/nodes/node_list_item.py    |  4 ++--
 atlas_doc_parser/nodes/node_table_cell.py   |  4 ++--
 atlas_doc_parser/nodes/node_table_header.py |  4 ++--
 4 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index e9a9d81..78dcfb6 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -108,6 +108,24 @@ def content_to_markdown(
         return concat.join(lst)
 
 
+def block_content_to_markdown(
+    content: T.Union[list["T_NODE"], T.Literal[OPT]],
+    ignore_error: bool = False,
+) -> str:
+    """
+    Same as :func:`content_to_markdown`, but for **block content** of a compact
+    container (e.g. a table cell): a block never shares a line with the block
+    before it. Some blocks (lists, code blocks, ...) don't end with a newline.
+    """
+    md = ""
+    for node in [] if content is OPT else content:
+        block = content_to_markdown([node], ignore_error=ignore_error)
+        if md and block and not md.endswith("\n"):
+            md += "\n"
+        md += block
+    return md
+
+
 def doc_content_to_markdown(
     content: T.Union[list["T_NODE"], T.Literal[OPT]],
     concat: str = "\n",
diff --git a/atlas_doc_parser/nodes/node_list_item.py b/atlas_doc_parser/nodes/node_list_item.py
index 2235810..6bba252 100644
--- a/atlas_doc_parser/nodes/node_list_item.py
+++ b/atlas_doc_parser/nodes/node_list_item.py
@@ -7,7 +7,7 @@ from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
-from ..markdown_helpers import content_to_markdown
+from ..markdown_helpers import block_content_to_markdown
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_paragraph import NodeParagraph
@@ -58,4 +58,4 @@ class NodeListItem(BaseNode):
         self,
         ignore_error: bool = False,
     ) -> str:
-        return content_to_markdown(content=self.content, ignore_error=ignore_error)
+        return block_content_to_markdown(content=self.content, ignore_error=ignore_error)
diff --git a/atlas_doc_parser/nodes/node_table_cell.py b/atlas_doc_parser/nodes/node_table_cell.py
index e14fb46..b1d53c8 100644
--- a/atlas_doc_parser/nodes/node_table_cell.py
+++ b/atlas_doc_parser/nodes/node_table_cell.py
@@ -7,7 +7,7 @@ from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
-from ..markdown_helpers import content_to_markdown
+from ..markdown_helpers import block_content_to_markdown
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_paragraph import NodeParagraph
@@ -86,7 +86,7 @@ class NodeTableCell(BaseNode):
         self,
         ignore_error: bool = False,
     ) -> str:
-        md = content_to_markdown(content=self.content, ignore_error=ignore_error)
+        md = block_content_to_markdown(content=self.content, ignore_error=ignore_error)
         md = md.replace("|", "\\|")
 
         # Convert leading spaces to &nbsp; for HTML table rendering
diff --git a/atlas_doc_parser/nodes/node_table_header.py b/atlas_doc_parser/nodes/node_table_header.py
index dd19f7b..e9dfc9a 100644
--- a/atlas_doc_parser/nodes/node_table_header.py
+++ b/atlas_doc_parser/nodes/node_table_header.py
@@ -7,7 +7,7 @@ from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
-from ..markdown_helpers import content_to_markdown
+from ..markdown_helpers import block_content_to_markdown
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_paragraph import NodeParagraph
@@ -85,7 +85,7 @@ class NodeTableHeader(BaseNode):
         self,
         ignore_error: bool = False,
     ) -> str:
-        md = content_to_markdown(content=self.content, ignore_error=ignore_error)
+        md = block_content_to_markdown(content=self.content, ignore_error=ignore_error)
         md = md.replace("|", "\\|")
 
         # Convert leading spaces to &nbsp; for HTML table rendering
-- 
2.43.0


From 9677bed6ee3891c11138898a5897ee8ccebd2afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 14/23] fix: a link with an empty title keeps its text

---
 atlas_doc_parser/marks/mark_link.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/marks/mark_link.py b/atlas_doc_parser/marks/mark_link.py
index 557d2ad..ff1cd96 100644
--- a/atlas_doc_parser/marks/mark_link.py
+++ b/atlas_doc_parser/marks/mark_link.py
@@ -45,7 +45,7 @@ class MarkLink(BaseMark):
         self,
         text: str,
     ) -> str:
-        if isinstance(self.attrs.title, str):
+        if isinstance(self.attrs.title, str) and self.attrs.title:
             title = self.attrs.title
         else:
             title = text
-- 
2.43.0


From f0886ddea7f95d8beac6359db1db888e8e7b4e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 15/23] fix: inline code that contains a double backtick does
 not end early

---
 atlas_doc_parser/marks/mark_code.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/marks/mark_code.py b/atlas_doc_parser/marks/mark_code.py
index 09eaf41..8fc5879 100644
--- a/atlas_doc_parser/marks/mark_code.py
+++ b/atlas_doc_parser/marks/mark_code.py
@@ -28,6 +28,10 @@ class MarkCode(BaseMark):
                 "Code mark cannot contain newlines in markdown representation."
             )
         if text.strip():
-            return f"`` {text} ``"
+            # the delimiter has to be longer than any run of backticks in the text
+            ticks = "``"
+            while ticks in text:
+                ticks += "`"
+            return f"{ticks} {text} {ticks}"
         else:
             return text
-- 
2.43.0


From 40ca07cb42d96c953517e687f527c731c23b2c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 16/23] fix: nested lists and multi-block content stay inside
 their list item

---
 atlas_doc_parser/nodes/node_bullet_list.py  | 21 +++++++++++++++-
 atlas_doc_parser/nodes/node_ordered_list.py | 28 +++++++++++++++++++--
 2 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/atlas_doc_parser/nodes/node_bullet_list.py b/atlas_doc_parser/nodes/node_bullet_list.py
index 94e7337..4422ed5 100644
--- a/atlas_doc_parser/nodes/node_bullet_list.py
+++ b/atlas_doc_parser/nodes/node_bullet_list.py
@@ -67,19 +67,29 @@ class NodeBulletList(BaseNode):
         """
         lines = []
         indent = "    " * level  # 4 spaces per level
+        pad = indent + "  "  # continuation lines of an item
 
         for item in self.content:
             if item.is_type_of(TypeEnum.listItem):
                 # Process the list item content
                 content_lines = []
                 for node in item.content:
-                    if node.is_type_of(TypeEnum.bulletList):
+                    if node.is_type_of(
+                        [
+                            TypeEnum.bulletList,
+                            TypeEnum.orderedList,
+                            TypeEnum.taskList,
+                        ]
+                    ):
                         # Nested list - increase level
                         try:
                             md = node.to_markdown(
                                 level=level + 1,
                                 ignore_error=ignore_error,
                             )
+                            # A nested list starts on a line of its own
+                            if not content_lines:
+                                content_lines.append("")
                             content_lines.append(md)
                         except Exception as e:
                             if ignore_error:
@@ -90,6 +100,15 @@ class NodeBulletList(BaseNode):
                         # Regular content (like paragraph)
                         try:
                             md = node.to_markdown(ignore_error=ignore_error).rstrip()
+                            # Align with the text of the first line, otherwise
+                            # it would not be a part of this list item
+                            md = md.replace("\n", "\n" + pad)
+                            if content_lines:
+                                if not md:
+                                    continue
+                                if any(content_lines):
+                                    content_lines.append("")
+                                md = pad + md
                             content_lines.append(md)
                         except Exception as e:
                             if ignore_error:
diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index 910c27a..ea9b87a 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -96,16 +96,31 @@ class NodeOrderedList(BaseNode):
 
         for item in self.content:
             if item.is_type_of(TypeEnum.listItem):
+                marker = f"{current_num}. "
+                pad = indent + " " * len(marker)  # continuation lines of an item
+
                 # Process the list item content
                 content_lines = []
                 for node in item.content:
-                    if node.is_type_of(TypeEnum.orderedList):
+                    if node.is_type_of(
+                        [
+                            TypeEnum.bulletList,
+                            TypeEnum.orderedList,
+                            TypeEnum.taskList,
+                        ]
+                    ):
                         # Nested list - increase level
                         try:
                             md = node.to_markdown(
                                 level=level + 1,
                                 ignore_error=ignore_error,
                             )
+                            # A wide marker (e.g. "100. ") needs more than 4 spaces
+                            extra = " " * (len(marker) - 4)
+                            md = extra + md.replace("\n", "\n" + extra)
+                            # A nested list starts on a line of its own
+                            if not content_lines:
+                                content_lines.append("")
                             content_lines.append(md)
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
@@ -116,6 +131,15 @@ class NodeOrderedList(BaseNode):
                         # Regular content (like paragraph)
                         try:
                             md = node.to_markdown(ignore_error=ignore_error).rstrip()
+                            # Align with the text of the first line, otherwise
+                            # it would not be a part of this list item
+                            md = md.replace("\n", "\n" + pad)
+                            if content_lines:
+                                if not md:
+                                    continue
+                                if any(content_lines):
+                                    content_lines.append("")
+                                md = pad + md
                             content_lines.append(md)
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
@@ -128,7 +152,7 @@ class NodeOrderedList(BaseNode):
 
                 # Format the first line with number
                 first_content = item_content.split("\n")[0]
-                first_line = f"{indent}{current_num}. {first_content}"
+                first_line = f"{indent}{marker}{first_content}"
                 lines.append(first_line)
 
                 # Add remaining lines
-- 
2.43.0


From 07f487c939dda629ae251bdfe9bf86c29975955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 17/23] fix: a line break does not end a heading

---
 atlas_doc_parser/nodes/node_heading.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_heading.py b/atlas_doc_parser/nodes/node_heading.py
index 1ea1edb..9127ceb 100644
--- a/atlas_doc_parser/nodes/node_heading.py
+++ b/atlas_doc_parser/nodes/node_heading.py
@@ -82,7 +82,11 @@ class NodeHeading(BaseNode):
             "\n\n"
             + "{} {}".format(
                 "#" * self.attrs.level,
-                content_to_markdown(content=self.content, ignore_error=ignore_error),
+                # A markdown heading is a single line
+                content_to_markdown(
+                    content=self.content,
+                    ignore_error=ignore_error,
+                ).replace("\n", " "),
             )
             + "\n\n"
         )
-- 
2.43.0


From 3d522bbfefbeee25e68d2d13f339470f62fed858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 18/23] fix: only a newline starts a new quoted line

---
 atlas_doc_parser/markdown_helpers.py      | 10 ++++++++++
 atlas_doc_parser/nodes/node_blockquote.py | 11 ++++++-----
 atlas_doc_parser/nodes/node_panel.py      | 11 ++++++-----
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 78dcfb6..5e693ff 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -62,6 +62,16 @@ def strip_double_empty_line(
     return _FENCE_OR_BLANK_LINES.sub(lambda m: m.group("fence") or "\n\n", text)
 
 
+def quote_lines(text: str) -> str:
+    """
+    Prefix every line of the text with ``> ``.
+
+    Only a newline ends a line in Markdown, while ``textwrap.indent`` also breaks
+    the text at characters like U+2028 (line separator).
+    """
+    return re.sub(r"^(?!\Z)", "> ", text, flags=re.MULTILINE)
+
+
 def content_to_markdown(
     content: T.Union[list["T_NODE"], T.Literal[OPT]],
     concat: str = "",
diff --git a/atlas_doc_parser/nodes/node_blockquote.py b/atlas_doc_parser/nodes/node_blockquote.py
index 7bed81e..eebf32e 100644
--- a/atlas_doc_parser/nodes/node_blockquote.py
+++ b/atlas_doc_parser/nodes/node_blockquote.py
@@ -1,14 +1,17 @@
 # -*- coding: utf-8 -*-
 
 import typing as T
-import textwrap
 import dataclasses
 
 from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
-from ..markdown_helpers import strip_double_empty_line, doc_content_to_markdown
+from ..markdown_helpers import (
+    strip_double_empty_line,
+    doc_content_to_markdown,
+    quote_lines,
+)
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_paragraph import NodeParagraph
@@ -62,15 +65,13 @@ class NodeBlockquote(BaseNode):
         ignore_error: bool = False,
     ) -> str:
         return (
-            textwrap.indent(
+            quote_lines(
                 strip_double_empty_line(
                     doc_content_to_markdown(
                         content=self.content,
                         ignore_error=ignore_error,
                     )
                 ),
-                prefix="> ",
-                predicate=lambda line: True,
             )
             + "\n"
         )
\ No newline at end of file
diff --git a/atlas_doc_parser/nodes/node_panel.py b/atlas_doc_parser/nodes/node_panel.py
index 7307b3c..a1fd19a 100644
--- a/atlas_doc_parser/nodes/node_panel.py
+++ b/atlas_doc_parser/nodes/node_panel.py
@@ -1,14 +1,17 @@
 # -*- coding: utf-8 -*-
 
 import typing as T
-import textwrap
 import dataclasses
 
 from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
-from ..markdown_helpers import strip_double_empty_line, doc_content_to_markdown
+from ..markdown_helpers import (
+    strip_double_empty_line,
+    doc_content_to_markdown,
+    quote_lines,
+)
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_paragraph import NodeParagraph
@@ -101,7 +104,7 @@ class NodePanel(BaseNode):
         ignore_error: bool = False,
     ) -> str:
         return (
-            textwrap.indent(
+            quote_lines(
                 strip_double_empty_line(
                     "\n".join(
                         [
@@ -114,8 +117,6 @@ class NodePanel(BaseNode):
                         ]
                     )
                 ),
-                prefix="> ",
-                predicate=lambda line: True,
             )
             + "\n"
         )
\ No newline at end of file
-- 
2.43.0


From 4c028a8177145ed141549590d36bc565f345c58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 19/23] fix: content and marks a node type does not model are
 ignored like any unknown field

---
 atlas_doc_parser/mark_or_node.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atlas_doc_parser/mark_or_node.py b/atlas_doc_parser/mark_or_node.py
index e69746d..91712f8 100644
--- a/atlas_doc_parser/mark_or_node.py
+++ b/atlas_doc_parser/mark_or_node.py
@@ -244,17 +244,17 @@ class BaseNode(BaseMarkOrNode):
         from .nodes.parse_node import parse_node
 
         dct = copy.deepcopy(dct)
+        fields = cls.get_fields()
 
         # Deserialize attrs
         if "attrs" in dct:
-            fields = cls.get_fields()
             if "attrs" in fields:
                 attrs_field = fields["attrs"]
                 if hasattr(attrs_field.type, "from_dict"):
                     dct["attrs"] = attrs_field.type.from_dict(dct["attrs"])
 
         # Deserialize content (child nodes)
-        if "content" in dct:
+        if "content" in dct and "content" in fields:
             if isinstance(dct["content"], list) and parse_node is not None:
                 new_content = []
                 for d in dct["content"]:
@@ -270,7 +270,7 @@ class BaseNode(BaseMarkOrNode):
                 dct["content"] = new_content
 
         # Deserialize marks
-        if "marks" in dct:
+        if "marks" in dct and "marks" in fields:
             if isinstance(dct["marks"], list) and parse_mark is not None:
                 new_marks = []
                 for d in dct["marks"]:
-- 
2.43.0


From c6f1db70e0d9d9e01fde0001f64252829eb5b29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 20/23] fix: the delimiter of code is found in one pass over
 the text

---
 atlas_doc_parser/markdown_helpers.py      | 9 +++++++++
 atlas_doc_parser/marks/mark_code.py       | 5 ++---
 atlas_doc_parser/nodes/node_code_block.py | 5 ++---
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 5e693ff..49ef0cc 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -72,6 +72,15 @@ def quote_lines(text: str) -> str:
     return re.sub(r"^(?!\Z)", "> ", text, flags=re.MULTILINE)
 
 
+def backtick_delimiter(text: str, minimum: int) -> str:
+    """
+    The shortest row of backticks, of at least ``minimum``, that does not occur
+    in the text, so that it can delimit the text as code.
+    """
+    longest = max(map(len, re.findall("`+", text)), default=0)
+    return "`" * max(minimum, longest + 1)
+
+
 def content_to_markdown(
     content: T.Union[list["T_NODE"], T.Literal[OPT]],
     concat: str = "",
diff --git a/atlas_doc_parser/marks/mark_code.py b/atlas_doc_parser/marks/mark_code.py
index 8fc5879..720374b 100644
--- a/atlas_doc_parser/marks/mark_code.py
+++ b/atlas_doc_parser/marks/mark_code.py
@@ -4,6 +4,7 @@ import dataclasses
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import BaseMark
+from ..markdown_helpers import backtick_delimiter
 
 
 @dataclasses.dataclass(frozen=True)
@@ -29,9 +30,7 @@ class MarkCode(BaseMark):
             )
         if text.strip():
             # the delimiter has to be longer than any run of backticks in the text
-            ticks = "``"
-            while ticks in text:
-                ticks += "`"
+            ticks = backtick_delimiter(text, minimum=2)
             return f"{ticks} {text} {ticks}"
         else:
             return text
diff --git a/atlas_doc_parser/nodes/node_code_block.py b/atlas_doc_parser/nodes/node_code_block.py
index ab353f7..ce9a128 100644
--- a/atlas_doc_parser/nodes/node_code_block.py
+++ b/atlas_doc_parser/nodes/node_code_block.py
@@ -8,6 +8,7 @@ from func_args.api import OPT
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
 from ..markdown_helpers import (
+    backtick_delimiter,
     content_to_markdown,
     ATLASSIAN_LANG_TO_MARKDOWN_LANG_MAPPING,
 )
@@ -69,7 +70,5 @@ class NodeCodeBlock(BaseNode):
         if lang == "none":
             lang = ""
         # the fence has to be longer than any run of backticks in the code
-        fence = "```"
-        while fence in code:
-            fence += "`"
+        fence = backtick_delimiter(code, minimum=3)
         return f"{fence}{lang}\n{code}\n{fence}"
-- 
2.43.0


From 951c54ec80e758af1133951f26b253546b344ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 21/23] fix: the API generator works in any project folder

---
 atlas_doc_parser/gen_code.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/gen_code.py b/atlas_doc_parser/gen_code.py
index 8fb44be..46ba44a 100644
--- a/atlas_doc_parser/gen_code.py
+++ b/atlas_doc_parser/gen_code.py
@@ -64,9 +64,11 @@ def scan_module_for_public_apis(
     module_name = module_path.stem  # e.g., "mark_link"
 
     # Determine the full module path for import
-    if "marks" in module_path.parts:
+    # (only by its own directory, the project may be in a folder named "marks" too)
+    dir_name = module_path.parent.name
+    if dir_name == "marks":
         full_module_name = f"atlas_doc_parser.marks.{module_name}"
-    elif "nodes" in module_path.parts:
+    elif dir_name == "nodes":
         full_module_name = f"atlas_doc_parser.nodes.{module_name}"
     else:
         return []
-- 
2.43.0


From bf7ffdd42dd0abc5ea8c6af18d010f0a0781b8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 22/23] fix: a nested list whose first item is empty stays a
 list

---
 atlas_doc_parser/markdown_helpers.py        | 8 ++++++++
 atlas_doc_parser/nodes/node_bullet_list.py  | 5 ++++-
 atlas_doc_parser/nodes/node_ordered_list.py | 5 ++++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 49ef0cc..ff1eed0 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -72,6 +72,14 @@ def quote_lines(text: str) -> str:
     return re.sub(r"^(?!\Z)", "> ", text, flags=re.MULTILINE)
 
 
+def starts_with_empty_item(md: str) -> bool:
+    """
+    Whether the Markdown of a list starts with an item without text. Directly after
+    a paragraph, it would be taken for a part of the paragraph.
+    """
+    return re.match(r" *(?:-|\d+\.) *(?:\n|\Z)", md) is not None
+
+
 def backtick_delimiter(text: str, minimum: int) -> str:
     """
     The shortest row of backticks, of at least ``minimum``, that does not occur
diff --git a/atlas_doc_parser/nodes/node_bullet_list.py b/atlas_doc_parser/nodes/node_bullet_list.py
index 4422ed5..2d28fb1 100644
--- a/atlas_doc_parser/nodes/node_bullet_list.py
+++ b/atlas_doc_parser/nodes/node_bullet_list.py
@@ -7,6 +7,7 @@ from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import BaseNode
+from ..markdown_helpers import starts_with_empty_item
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_list_item import NodeListItem
@@ -88,7 +89,9 @@ class NodeBulletList(BaseNode):
                                 ignore_error=ignore_error,
                             )
                             # A nested list starts on a line of its own
-                            if not content_lines:
+                            if not content_lines or (
+                                any(content_lines) and starts_with_empty_item(md)
+                            ):
                                 content_lines.append("")
                             content_lines.append(md)
                         except Exception as e:
diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index ea9b87a..dd584b3 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -7,6 +7,7 @@ from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
+from ..markdown_helpers import starts_with_empty_item
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_list_item import NodeListItem
@@ -119,7 +120,9 @@ class NodeOrderedList(BaseNode):
                             extra = " " * (len(marker) - 4)
                             md = extra + md.replace("\n", "\n" + extra)
                             # A nested list starts on a line of its own
-                            if not content_lines:
+                            if not content_lines or (
+                                any(content_lines) and starts_with_empty_item(md)
+                            ):
                                 content_lines.append("")
                             content_lines.append(md)
                         except Exception as e:  # pragma: no cover
-- 
2.43.0


From d863cb15c93d7ab95c1ced9aa61b3715a9bf15a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 23/23] fix: the unimplemented-type error can be copied and
 pickled

---
 atlas_doc_parser/exc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atlas_doc_parser/exc.py b/atlas_doc_parser/exc.py
index 93f790a..dd8f870 100644
--- a/atlas_doc_parser/exc.py
+++ b/atlas_doc_parser/exc.py
@@ -35,3 +35,7 @@ class UnimplementedTypeError(Exception):
             f"Please submit an issue at https://github.com/MacHu-GWU/atlas_doc_parser-project/issues "
             f"with this type name so it can be added in a future release."
         )
+
+    def __reduce__(self):
+        # The default one would call ``__init__`` with the message only
+        return type(self), (self.type_value, self.category)
-- 
2.43.0

