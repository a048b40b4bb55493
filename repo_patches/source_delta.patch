From 0f7b5b318c162ccb94de5ec084c0e648b8e058da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 001/132] fix: number parts and levels deeper than
 subsubsection instead of raising KeyError

---
 latex2json/structure/builder.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 14439a9..abbc997 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -121,7 +121,8 @@ class TokenBuilder:
 
     def reset_numbering(self):
         """Reset section numbering state"""
-        self.section_numbers = {1: 0, 2: 0, 3: 0}
+        # 0 is part, which has its own counter
+        self.section_numbers = {0: 0, 1: 0, 2: 0, 3: 0}
         self.math_env_number = 0  # resets when section changes
         # equation, table, figure are simple sequential counters
         self.equation_number = 0
@@ -140,6 +141,13 @@ class TokenBuilder:
             return
 
         level = token.get("level", 1)
+        self.section_numbers.setdefault(level, 0)
+
+        # a part is numbered on its own and does not restart the sections
+        if level == 0:
+            self.section_numbers[0] += 1
+            token["numbering"] = str(self.section_numbers[0])
+            return
 
         # Reset lower level counters if needed
         if reset_lower_levels:
@@ -157,7 +165,7 @@ class TokenBuilder:
             else str(self.section_numbers[1])
         )
         number_parts = [first_num] + [
-            str(self.section_numbers[l]) for l in range(2, level + 1)
+            str(self.section_numbers.get(l, 0)) for l in range(2, level + 1)
         ]
         token["numbering"] = ".".join(number_parts)
 
@@ -354,7 +362,7 @@ class TokenBuilder:
             if token["type"] == "appendix":
                 in_appendix = True
                 # reset section numbers since appendix
-                self.section_numbers = {1: 0, 2: 0, 3: 0}
+                self.section_numbers = {0: self.section_numbers[0], 1: 0, 2: 0, 3: 0}
                 section_stack.clear()
                 paragraph_stack.clear()
 
-- 
2.43.0


From b135bf32b06b26672aa037bd489a1707d2a43beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 002/132] fix: do not loop forever on an unclosed tikzpicture,
 picture, pgfpicture or overpic

---
 latex2json/parser/packages/overpic.py  | 4 ++++
 latex2json/parser/packages/tikz_pgf.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/latex2json/parser/packages/overpic.py b/latex2json/parser/packages/overpic.py
index 0622b97..53b47bc 100644
--- a/latex2json/parser/packages/overpic.py
+++ b/latex2json/parser/packages/overpic.py
@@ -28,6 +28,10 @@ class OverpicHandler(TokenHandler):
 
         start_pos, end_pos, env_content = find_matching_env_block(content, "overpic")
 
+        if end_pos < 0:
+            # unclosed environment, skip only the \begin
+            return None, match.end()
+
         args, _ = extract_args(env_content, 1, 1)
         if args["req"]:
             file_name = args["req"][0]
diff --git a/latex2json/parser/packages/tikz_pgf.py b/latex2json/parser/packages/tikz_pgf.py
index bda51f7..3ad34f2 100644
--- a/latex2json/parser/packages/tikz_pgf.py
+++ b/latex2json/parser/packages/tikz_pgf.py
@@ -49,6 +49,9 @@ class TikzPGFHandler(TokenHandler):
                     start_pos, end_pos, inner_content = find_matching_env_block(
                         content, env_name
                     )
+                    if end_pos < 0:
+                        # unclosed environment, skip only the \begin
+                        return None, match.end()
                     return {
                         "type": "diagram",
                         "name": env_name,
-- 
2.43.0


From 653b4f28a9c2ef457531dad86a624a3e074e9f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 003/132] fix: do not raise on an unclosed brace after an
 unknown or legacy formatting command

---
 latex2json/parser/handlers/legacy_formatting.py | 6 ++++++
 latex2json/parser/tex_parser.py                 | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index 0826ab0..113d396 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -115,6 +115,9 @@ class LegacyFormattingHandler(TokenHandler):
                 if matched_str.startswith("\\color"):
                     # our regex is \color{
                     text, end_pos = extract_nested_content("{" + content[next_pos:])
+                    if text is None:
+                        # unclosed brace, ignore the command
+                        return "", match.end()
                     modern_command = "textcolor"
 
                     if match.group(1):
@@ -129,6 +132,9 @@ class LegacyFormattingHandler(TokenHandler):
                     # simple \tt{text}
                     next_pos -= 1  # remove the opening brace
                     text, end_pos = extract_nested_content(content[next_pos:])
+                    if text is None:
+                        # unclosed brace, ignore the command
+                        return "", next_pos
                     content_to_format = text.strip()
                     total_pos = next_pos + end_pos
                     formatted_text = "\\%s{%s}" % (modern_command, content_to_format)
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 38e2e41..aa1d98d 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -231,7 +231,11 @@ class LatexParser:
                     content[end_pos - 1 :]
                 )
                 end_pos += inner_end_pos - 1
-                total_content += inner_content + "}"
+                if inner_content is None:
+                    # unclosed brace, leave it to the remaining content
+                    total_content = command
+                else:
+                    total_content += inner_content + "}"
 
             expanded = self._expand_command(total_content)
 
-- 
2.43.0


From 8c02d76f2afd8c31939408c905bb8c8817cd3e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 004/132] fix: allow an empty algorithm environment

---
 latex2json/structure/tokens/code_and_algo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/structure/tokens/code_and_algo.py b/latex2json/structure/tokens/code_and_algo.py
index 44eebdd..ce667d0 100644
--- a/latex2json/structure/tokens/code_and_algo.py
+++ b/latex2json/structure/tokens/code_and_algo.py
@@ -1,5 +1,5 @@
 from enum import Enum
-from typing import List, Optional
+from typing import List, Optional, Union
 
 from pydantic import Field
 
@@ -21,7 +21,7 @@ class AlgorithmToken(EnvironmentToken):
     """Represents algorithm environment"""
 
     type: TokenType = TokenType.ALGORITHM
-    content: List[BaseToken] = Field(default_factory=list)
+    content: Union[str, List[BaseToken]] = Field(default_factory=list)
     numbering: Optional[str] = None
 
 
-- 
2.43.0


From b12a51273569b229c7a60584e0de1e19683cf75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 005/132] fix: build lists holding content outside of their
 items

---
 latex2json/structure/tokens/table_figure_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/structure/tokens/table_figure_list.py b/latex2json/structure/tokens/table_figure_list.py
index 04cb863..d5fcf74 100644
--- a/latex2json/structure/tokens/table_figure_list.py
+++ b/latex2json/structure/tokens/table_figure_list.py
@@ -47,5 +47,6 @@ class ListToken(EnvironmentToken):
     """Represents itemize/enumerate/description environments"""
 
     type: TokenType = TokenType.LIST
-    content: List[ItemToken] = Field(default_factory=list)
+    # mostly items, but content can precede the first item
+    content: List[BaseToken] = Field(default_factory=list)
     depth: int = 1
-- 
2.43.0


From a7a5dc6a9321fa7a1d867d7ea630b9d327887b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 006/132] fix: skip untyped children of theorem-like
 environments like everywhere else

---
 latex2json/structure/tokens/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index 6064cd3..6f70aee 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -90,11 +90,15 @@ class MathEnvToken(BaseToken):
         proof = None
         if "content" in data:
             for item in data["content"]:
-                content.append(create_token(item))
+                child = create_token(item)
+                if child is not None:
+                    content.append(child)
         if "title" in data:
             title = []
             for item in data["title"]:
-                title.append(create_token(item))
+                child = create_token(item)
+                if child is not None:
+                    title.append(child)
         if "proof" in data:
             proof = create_token(data["proof"])
 
-- 
2.43.0


From d685d56de9d251e618c49babbc0bdf76286f296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 007/132] fix: process citations, footnotes and other content
 commands found inside math

---
 latex2json/parser/tex_parser.py         | 8 ++++++++
 latex2json/structure/tokens/equation.py | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index aa1d98d..be75338 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -401,6 +401,14 @@ class LatexParser:
                     token["title"] = self.parse(token["title"])
             elif token["type"] == "abstract":
                 token["content"] = self.parse(token["content"])
+            elif token["type"] == "equation":
+                # e.g. \cite, \footnote inside math. Process them as usual
+                prev_env = self.current_env
+                for key, block in token.get("placeholders", {}).items():
+                    block_tokens = []
+                    self._process_token(block, block_tokens)
+                    token["placeholders"][key] = block_tokens
+                self.current_env = prev_env
             elif is_env_type:
                 # algorithmic keep as literal?
                 if token.get("content") and token["type"] not in [
diff --git a/latex2json/structure/tokens/equation.py b/latex2json/structure/tokens/equation.py
index 8a76244..efcb7ef 100644
--- a/latex2json/structure/tokens/equation.py
+++ b/latex2json/structure/tokens/equation.py
@@ -35,7 +35,9 @@ class EquationToken(BaseToken):
             for k, v in data["placeholders"].items():
                 out = []
                 for item in v:
-                    out.append(create_token(item))
+                    child = create_token(item)
+                    if child is not None:
+                        out.append(child)
                 placeholder_dict[k] = out
 
         return cls(
-- 
2.43.0


From 349eaf95b3d9b0f872bec3e139b7253fc18b9061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 008/132] fix: keep labels and styles of tabular tokens

---
 latex2json/structure/tokens/tabular.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/structure/tokens/tabular.py b/latex2json/structure/tokens/tabular.py
index 5bc60e5..7efa486 100644
--- a/latex2json/structure/tokens/tabular.py
+++ b/latex2json/structure/tokens/tabular.py
@@ -92,7 +92,9 @@ class TabularToken(BaseToken):
                 else:
                     row_cells.append(cell)
             all_cells.append(row_cells)
-        return cls(content=all_cells)
+        return cls(
+            content=all_cells, labels=data.get("labels"), styles=data.get("styles")
+        )
 
     @classmethod
     def _process_nested_list(
-- 
2.43.0


From 33f3ec689afb48696b865e9cbc6db1e9e984de1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 009/132] fix: keep every field of tokens nested in titles and
 math placeholders in the json

---
 latex2json/structure/tokens/base.py     | 5 +++++
 latex2json/structure/tokens/equation.py | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index 6f70aee..cc1c1e8 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -43,6 +43,11 @@ class BaseToken(BaseModel):
         else:
             result["content"] = self.serialize_value(self.content, **kwargs)
 
+        # likewise for titles e.g. of items, citations, refs
+        title = getattr(self, "title", None)
+        if isinstance(title, list):
+            result["title"] = [self.serialize_value(token, **kwargs) for token in title]
+
         # Remove None values if exclude_none is True
         if exclude_none:
             result = {k: v for k, v in result.items() if v is not None}
diff --git a/latex2json/structure/tokens/equation.py b/latex2json/structure/tokens/equation.py
index efcb7ef..0dd6eae 100644
--- a/latex2json/structure/tokens/equation.py
+++ b/latex2json/structure/tokens/equation.py
@@ -24,6 +24,12 @@ class EquationToken(BaseToken):
     numbering: Optional[str] = None
     placeholders: Optional[Dict[str, List[BaseToken]]] = None
 
+    def model_dump(self, **kwargs) -> Dict[str, Any]:
+        result = super().model_dump(**kwargs)
+        if self.placeholders:
+            result["placeholders"] = self.serialize_value(self.placeholders, **kwargs)
+        return result
+
     @classmethod
     def process(
         cls, data: Dict[str, Any], create_token: TokenCreator
-- 
2.43.0


From b96e35d2d73bb3c8d300d876a37538b26a0137e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 010/132] fix: keep item titles with nested brackets and items
 with only a title

---
 latex2json/parser/handlers/item.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/item.py b/latex2json/parser/handlers/item.py
index 6609aab..19d9ec4 100644
--- a/latex2json/parser/handlers/item.py
+++ b/latex2json/parser/handlers/item.py
@@ -5,9 +5,15 @@ from latex2json.parser.handlers.environment import (
     find_pattern_while_skipping_nested_envs,
 )
 
+# title of an item, whose brackets and braces may nest e.g. [\cite[p. 1]{key}] or [{[1]}]
+ITEM_TITLE_PATTERN = (
+    r"\[((?:\\.|[^\[\]{}\\]|\[[^\[\]]*\]|\{(?:\\.|[^{}\\]|\{[^{}]*\})*\})*)\]"
+)
+
 # pattern to match \item up to the next \item or end of string
 ITEM_PATTERN = re.compile(
-    r"\\item\b\s*(?:\[(.*?)\])?\s*([\s\S]*?)(?=\\item\b|$)", re.DOTALL
+    r"\\item\b\s*(?:%s)?\s*([\s\S]*?)(?=\\item\b|$)" % ITEM_TITLE_PATTERN,
+    re.DOTALL,
 )
 
 
@@ -23,7 +29,7 @@ class ItemHandler(BaseEnvironmentHandler):
         if match:
             end_of_item = match.group(2)
             end_pos = match.end()
-            if end_of_item:
+            if end_of_item or match.group(1):
                 # check to see and skip any nested environments that may contain inner \item
                 start = match.start(2)
                 out_end_pos = find_pattern_while_skipping_nested_envs(
-- 
2.43.0


From 1b42283bf947a0420b4624670e377d77d2c1b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 011/132] fix: convert an escaped brace that stands right
 before a command or math

---
 latex2json/parser/tex_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index be75338..42175a1 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -30,6 +30,7 @@ from latex2json.parser.handlers.environment import BaseEnvironmentHandler
 from latex2json.parser.handlers.command_manager import CommandManager
 from latex2json.utils.tex_utils import (
     extract_nested_content,
+    is_escaped,
     read_tex_file_content,
     strip_latex_comments,
 )
@@ -544,7 +545,7 @@ class LatexParser:
                 text = content[current_pos : current_pos + next_pos]
                 if text:
                     # skip delimited braces for next pass
-                    if text.endswith("{"):
+                    if text.endswith("{") and not is_escaped(len(text) - 1, text):
                         text = text[:-1]
                         next_pos -= 1
                     if handle_unknown_commands:
-- 
2.43.0


From 99ef9bd1fa803f2daa6a340ca35fd37ccc2a4c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 012/132] fix: match inline math with escaped dollars and line
 breaks

---
 latex2json/parser/handlers/equation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index 9d723df..5b2e27c 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -31,9 +31,9 @@ EQUATION_ENV = {
 RAW_PATTERNS = OrderedDict(
     [
         ("equation_display_$$", re.compile(r"\$\$([\s\S]*?)\$\$", re.DOTALL)),
-        ("equation_inline_$", re.compile(r"\$([^$]*)\$")),
+        ("equation_inline_$", re.compile(r"\$((?:[^$\\]|\\.)*)\$", re.DOTALL)),
         ("equation_display_brackets", re.compile(r"\\\[(.*?)\\\]", re.DOTALL)),
-        ("equation_inline_brackets", re.compile(r"\\\((.*?)\\\)")),
+        ("equation_inline_brackets", re.compile(r"\\\((.*?)\\\)", re.DOTALL)),
     ]
 )
 
-- 
2.43.0


From 82ed64c99a1551d181e0ac359728db27e3a35afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 013/132] fix: do not treat a percent sign in verbatim text or
 urls as a comment

---
 latex2json/utils/tex_utils.py | 36 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 5a57707..b551f3e 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -322,12 +322,25 @@ def is_escaped(pos: int, text: str) -> bool:
     return count_preceding_backslashes(text, pos) % 2 == 1
 
 
+# a comment, or anything whose % signs do not start one: verbatim text, urls, escaped characters
+COMMENT_PATTERN = re.compile(
+    r"\\begin\s*\{(verbatim|lstlisting)\}.*?\\end\s*\{\1\}"
+    r"|\\verb\*?([^a-zA-Z\s*])[^\n]*?\2"
+    r"|\\(?:url|href)\s*\{[^{}\n]*\}"
+    r"|\\."
+    r"|(?P<comment>%[^\n\r\v\f\x1c-\x1e\x85\u2028\u2029]*)",
+    re.DOTALL,
+)
+
+
 def strip_latex_comments(text: str) -> str:
     r"""
     Remove all LaTeX comments while preserving escaped \% characters.
 
     A % starts a comment if it is preceded by an even number (including zero)
     of consecutive backslashes. An odd number indicates that the % is escaped.
+    A % in verbatim text (verbatim, lstlisting, \verb) or in a \url does not start
+    a comment either.
 
     Args:
         text: Input LaTeX text
@@ -335,25 +348,10 @@ def strip_latex_comments(text: str) -> str:
     Returns:
         Text with all comments removed.
     """
-    lines = []
-    for line in text.splitlines():
-        result = []
-        i = 0
-        while i < len(line):
-            if line[i] == "%":
-                # Use helper to decide if this % is escaped.
-                if not is_escaped(i, line):
-                    break  # Unescaped % starts a comment
-                else:
-                    # Escaped percent: include literal %
-                    result.append("%")
-                    i += 1
-                    continue
-            else:
-                result.append(line[i])
-                i += 1
-        lines.append("".join(result).rstrip())
-    return "\n".join(lines)
+    text = COMMENT_PATTERN.sub(
+        lambda m: "" if m.group("comment") is not None else m.group(0), text
+    )
+    return "\n".join(line.rstrip() for line in text.splitlines())
 
 
 def flatten_all_to_string(tokens: List[Dict | str | List] | str) -> str:
-- 
2.43.0


From ec980a8dc1632344e0cdb6f92850c199147d3257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 014/132] fix: do not expand, execute or reformat verbatim text
 while preprocessing

---
 latex2json/parser/tex_preprocessor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 5fbc3f3..e47ca6b 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -208,6 +208,15 @@ class LatexPreprocessor:
                     break
                 continue
 
+            # leave verbatim text as is
+            verbatim_match = next(
+                (m for p in VERBATIM_PATTERNS.values() if (m := p.match(content, current_pos))),
+                None,
+            )
+            if verbatim_match:
+                current_pos = verbatim_match.end()
+                continue
+
             # Process addto by simply treating the content inside as {...}
             match = ADD_TO_PATTERN.match(content[current_pos:])
             if match:
-- 
2.43.0


From 7173a1a6bc16168369c3d872960cb3c8afcc72f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 015/132] fix: do not turn a grave accent into an acute one
 when an apostrophe follows

---
 latex2json/parser/tex_preprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index e47ca6b..01ef4f9 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -21,6 +21,7 @@ from latex2json.parser.handlers import (
 )
 from latex2json.utils.tex_utils import (
     check_string_has_hash_number,
+    is_escaped,
     strip_latex_comments,
     normalize_whitespace_and_lines,
 )
@@ -244,7 +245,8 @@ class LatexPreprocessor:
             # check quotes
             for quote_type, pattern in QUOTE_PATTERNS.items():
                 match = pattern.match(content[current_pos:])
-                if match:
+                # but not the grave accent \`
+                if match and not is_escaped(current_pos, content):
                     quote_content = match.group(1)
                     if quote_type == "double_quotes":
                         quote_content = '"' + quote_content + '"'
-- 
2.43.0


From aa5ca08d28c648a8a4260dfd917fc8a6efc8fdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 016/132] fix: keep definitions made before documentclass

---
 latex2json/parser/tex_preprocessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 01ef4f9..98550b7 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -94,7 +94,8 @@ class LatexPreprocessor:
         # 2. Check for documentclass (only once at the start)
         end_pos, out_tokens = self._check_documentclass(content, file_dir)
         if end_pos > 0:
-            content = content[end_pos:]
+            # keep what comes before it e.g. definitions
+            content = DOCUMENTCLASS_PATTERN.sub("", content, count=1)
 
         # 3. Process all definitions and expand commands
         content, tokens = self._process_definitions_and_expand(content, file_dir)
-- 
2.43.0


From 06e50cf5dd46da041147c2f51fd0941408e86293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 017/132] fix: let only takes a single command as its target

---
 latex2json/parser/handlers/new_definition.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 7166b80..cadec1b 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -24,8 +24,16 @@ LET_COMMAND_PREFIX = r"\\(?:future)?let\s*\\"
 DEF_COMMAND_PATTERN = re.compile(
     r"%s([^\s{#]+)(((?:#\d+|[^{])*)\s*{)" % (DEF_COMMAND_PREFIX), re.DOTALL
 )
+# \let\name=target or \let\name\target, where the target is a single command
 LET_COMMAND_PATTERN = re.compile(
-    r"%s([^\s{\\]+)\s*(=.*|\\[^\s{]+)" % (LET_COMMAND_PREFIX), re.DOTALL
+    r"%s([^\s{\\=]+)\s*(=?\s*\\(?:[a-zA-Z@]+\*?|[^a-zA-Z@\s])|=\s*[^\s{}\\]+)"
+    % (LET_COMMAND_PREFIX),
+    re.DOTALL,
+)
+# names made by \csname can hold any character
+LET_CSNAME_COMMAND_PATTERN = re.compile(
+    r"%s([^\s{\\=]+)\s*(=\s*\\?[^\s{\\]+|\\[^\s{\\]+)" % (LET_COMMAND_PREFIX),
+    re.DOTALL,
 )
 
 EXPAND_PATTERN = re.compile(r"\\(?:expandafter|noexpand)(?:\w+)?(?![a-zA-Z])")
@@ -329,9 +337,7 @@ class NewDefinitionHandler(TokenHandler):
         content = match.group(2).strip()
         # Remove optional equals sign if present
         if content.startswith("="):
-            content = content[1:]
-        elif name.endswith("="):
-            name = name[:-1]
+            content = content[1:].strip()
 
         # HACK: treat futurelet as newcommand?
         if match.group(0).startswith("\\futurelet"):
@@ -483,6 +489,8 @@ class NewDefinitionHandler(TokenHandler):
                 search_prefix = prefix + cmd_str
                 if content[start_pos] == "\\":
                     start_pos += 1
+                if inner_csnames and full_pattern is LET_COMMAND_PATTERN:
+                    full_pattern = LET_CSNAME_COMMAND_PATTERN
                 search_text = search_prefix + content[start_pos:]
                 full_match = full_pattern.match(search_text)
                 if full_match:
-- 
2.43.0


From b56fff7a0afc17795e0fbed2203d4e905fd0eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 018/132] fix: escape names made by let and csname when
 matching their usages

---
 latex2json/parser/handlers/new_definition.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index cadec1b..6d9a0fb 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -339,6 +339,11 @@ class NewDefinitionHandler(TokenHandler):
         if content.startswith("="):
             content = content[1:].strip()
 
+        usage_pattern = r"\\" + re.escape(name)
+        # no lookahead for commands ending in special chars
+        if name[-1].isalnum() or name[-1] == "@":
+            usage_pattern += USAGE_SUFFIX
+
         # HACK: treat futurelet as newcommand?
         if match.group(0).startswith("\\futurelet"):
             token = {
@@ -347,14 +352,14 @@ class NewDefinitionHandler(TokenHandler):
                 "content": content,
                 "num_args": 0,
                 "defaults": [],
-                "usage_pattern": r"\\" + name + USAGE_SUFFIX,
+                "usage_pattern": usage_pattern,
             }
         else:
             token = {
                 "type": "let",
                 "name": name,
                 "content": content,
-                "usage_pattern": r"\\" + name + USAGE_SUFFIX,
+                "usage_pattern": usage_pattern,
             }
         return token, match.end()
 
@@ -504,7 +509,10 @@ class NewDefinitionHandler(TokenHandler):
                                 "\\" + first_inner.replace(" ", "")
                             )
                         inner_csname_regex = (
-                            r"\\csname" + first_inner + r"\\endcsname" + usage_suffix
+                            r"\\csname"
+                            + re.escape(first_inner)
+                            + r"\\endcsname"
+                            + usage_suffix
                         )
                         token["usage_pattern"] = (
                             token["usage_pattern"] + "|" + inner_csname_regex
-- 
2.43.0


From 0f55e5b3a1b0b13d941239773f4d6398b2686d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 019/132] fix: match conditional, length, counter and delimiter
 names exactly

---
 latex2json/parser/handlers/command_processor.py  | 10 +++++-----
 latex2json/parser/handlers/if_else_statements.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 0fe83da..f59d79d 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -254,7 +254,7 @@ class CommandProcessor:
         self, command_name: str, left_delim: str, right_delim: str
     ):
         r"""Process a paired delimiter command like \br{content}"""
-        usage_pattern = r"\\" + command_name + r"\*?\s*{"
+        usage_pattern = r"\\" + re.escape(command_name) + r"\*?\s*{"
 
         def handler(
             match: re.Match[str], text: str, math_mode: bool = False
@@ -328,7 +328,7 @@ class CommandProcessor:
 
     def process_newif(self, var_name: str):
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"(?:true|false)"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"(?:true|false)"),
             "handler": default_ignore_handler,
         }
         self.commands["newif:" + var_name] = command
@@ -349,14 +349,14 @@ class CommandProcessor:
             return "", start_pos + end_pos
 
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"\b"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"\b"),
             "handler": handler,
         }
         self.commands["newtoks:" + var_name] = command
 
     def process_newX(self, var_name: str, type: str = "newX"):
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"\b"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"\b"),
             "handler": default_ignore_handler,
         }
         self.commands[type + ":" + var_name] = command
@@ -364,7 +364,7 @@ class CommandProcessor:
     def process_newcounter(self, var_name: str):
 
         command: CommandEntry = {
-            "pattern": re.compile(r"\\the" + var_name + r"\b"),
+            "pattern": re.compile(r"\\the" + re.escape(var_name) + r"\b"),
             "handler": default_ignore_handler,
         }
         self.commands["newcounter:" + var_name] = command
diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 3d8aa73..c7ce511 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -200,7 +200,7 @@ class IfElseBlockHandler(TokenHandler):
         self._recompile_all_ifs()
 
     def process_newif(self, var_name: str):
-        pattern = re.compile(r"\\if" + var_name + r"(?:true|false)?")
+        pattern = re.compile(r"\\if" + re.escape(var_name) + r"(?:true|false)?(?![a-zA-Z@])")
         # push to top of stack i.e. priority
         self.all_ifs.insert(0, (var_name, pattern))
         self._recompile_all_ifs()
-- 
2.43.0


From 4a8cec25566e948ab7264106f362e6e2cd609e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 020/132] fix: do not raise on an incomplete ifthenelse

---
 latex2json/parser/handlers/if_else_statements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index c7ce511..9490820 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -172,7 +172,8 @@ def try_handle_ifthenelse(
             content[start_pos:], "{", "}", max_blocks=3
         )
         if len(blocks) != 3:
-            raise ValueError("Invalid \\ifthenelse structure")
+            # invalid structure
+            return None, 0
         return {
             "type": "conditional-ifthenelse",
             "condition": blocks[0],
-- 
2.43.0


From 6dd2b8b64f186442a7ad63e33f49248119452cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 021/132] fix: skip definitions that would expand forever,
 register a definition once

---
 latex2json/parser/handlers/command_manager.py | 47 ++++++++++++++++++-
 latex2json/parser/tex_parser.py               |  5 +-
 2 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index 9c9636d..397789a 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -8,6 +8,15 @@ from latex2json.parser.handlers.command_processor import CommandProcessor
 from latex2json.parser.handlers.new_definition import NewDefinitionHandler
 from latex2json.parser.packages.keyval import KeyValHandler
 
+COMMAND_NAME_PATTERN = re.compile(r"[a-zA-Z@]+|.", re.DOTALL)
+USED_COMMAND_PATTERN = re.compile(r"\\([a-zA-Z@]+|.)", re.DOTALL)
+
+
+def get_base_command_name(cmd_name: str) -> str:
+    r"""Strip what follows the command itself e.g. the delimiter of \def\foo.#1{..}"""
+    match = COMMAND_NAME_PATTERN.match(cmd_name)
+    return match.group(0) if match else cmd_name
+
 
 class CommandManager(TokenHandler):
     ignore_sty_commands = True
@@ -63,6 +72,26 @@ class CommandManager(TokenHandler):
     def _should_handle_command_type(self, cmd_type: str) -> bool:
         return not self.command_types or cmd_type in self.command_types
 
+    def _is_recursive(self, cmd_name: str, content: str) -> bool:
+        """Check if the content uses the command itself, directly or through other registered commands"""
+        name = get_base_command_name(cmd_name)
+        definitions = {
+            get_base_command_name(k): v.get("definition")
+            for k, v in self.processor.get_commands().items()
+        }
+
+        seen = set()
+        pending = [content]
+        while pending:
+            for used in USED_COMMAND_PATTERN.findall(pending.pop()):
+                if used == name:
+                    return True
+                if used not in seen:
+                    seen.add(used)
+                    if definitions.get(used):
+                        pending.append(definitions[used])
+        return False
+
     def register_command(self, token: Dict) -> None:
         """Register commands based on their type"""
         if not token or "name" not in token:
@@ -81,7 +110,10 @@ class CommandManager(TokenHandler):
         if token["type"] == "newcommand":
             # Check for recursion like tex_parser does
             content = token["content"] if not ignore_sty else ""
-            if content and re.search(token["usage_pattern"], content):
+            if content and (
+                re.search(token["usage_pattern"], content)
+                or self._is_recursive(cmd_name, content)
+            ):
                 self.logger.warning(
                     f"Potential recursion detected for newcommand: \\{cmd_name}, skipping..."
                 )
@@ -96,6 +128,11 @@ class CommandManager(TokenHandler):
             )
         elif token["type"] == "let":
             content = token["content"] if not ignore_sty else ""
+            if self._is_recursive(cmd_name, content):
+                self.logger.warning(
+                    f"Potential recursion detected for let: \\{cmd_name}, skipping..."
+                )
+                return
             self.processor.process_let(
                 cmd_name,
                 content,
@@ -103,6 +140,14 @@ class CommandManager(TokenHandler):
             )
         elif token["type"] == "def":
             content = token["content"] if not ignore_sty else ""
+            if token["is_edef"]:
+                # the definition is expanded right away, so it may use its previous one
+                content = self.expand_commands(content, True)[0]
+            if self._is_recursive(cmd_name, content):
+                self.logger.warning(
+                    f"Potential recursion detected for def: \\{cmd_name}, skipping..."
+                )
+                return
             self.processor.process_newdef(
                 cmd_name,
                 content,
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 42175a1..a182291 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -287,7 +287,10 @@ class LatexParser:
 
     def _check_for_new_definitions(self, content: str) -> None:
         """Check for new definitions in the content and process them"""
-        token, end_pos = self.command_manager.process_definition(content)
+        # registered below, once
+        token, end_pos = self.command_manager.process_definition(
+            content, register=False
+        )
         if token:
             self._process_new_definition_token(token)
         return end_pos
-- 
2.43.0


From f60379ede14b7add2ceaa8174c8d2578c1c5fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 022/132] fix: the latest definition counts, providecommand
 does not override

---
 latex2json/parser/handlers/command_manager.py   | 3 +++
 latex2json/parser/handlers/command_processor.py | 5 +++++
 latex2json/parser/handlers/new_definition.py    | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index 397789a..094c463 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -108,6 +108,9 @@ class CommandManager(TokenHandler):
         ignore_sty = token.get("is_sty", False) and self.ignore_sty_commands
         math_mode_only = token.get("math_mode_only", False)
         if token["type"] == "newcommand":
+            if token.get("is_provide") and self.processor.has_command(cmd_name):
+                # \\providecommand does not override an existing definition
+                return
             # Check for recursion like tex_parser does
             content = token["content"] if not ignore_sty else ""
             if content and (
diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index f59d79d..5bbf16a 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -148,6 +148,8 @@ class CommandProcessor:
                 "definition": definition,
             }
             self.let_commands[command_name] = command
+            # the latest definition counts
+            self.commands.pop(command_name, None)
         except Exception as e:
             print(f"Error processing newcommand {command_name}: {e}")
             raise e
@@ -246,6 +248,7 @@ class CommandProcessor:
                 "math_mode_only": math_mode_only,
             }
             self.commands[command_name] = command
+            self.let_commands.pop(command_name, None)
         except Exception as e:
             print(f"Error processing newcommand {command_name}: {e}")
             raise e
@@ -279,6 +282,7 @@ class CommandProcessor:
                 "handler": handler,
             }
             self.commands[command_name] = command
+            self.let_commands.pop(command_name, None)
         except Exception as e:
             print(f"Error processing paired delimiter {command_name}: {e}")
             raise e
@@ -322,6 +326,7 @@ class CommandProcessor:
                 "definition": definition,
             }
             self.commands[command_name] = command
+            self.let_commands.pop(command_name, None)
         except Exception as e:
             print(f"Error processing newdef {command_name}: {e}")
             raise e
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 6d9a0fb..233869d 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -403,6 +403,8 @@ class NewDefinitionHandler(TokenHandler):
             "defaults": defaults,
             "usage_pattern": pattern,
         }
+        if match.group(0).startswith("\\providecommand"):
+            token["is_provide"] = True
 
         return token, start_pos + end_pos - 1
 
-- 
2.43.0


From 400a2c184f75d80c38271ce1b8d3deb42b2c82e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 023/132] fix: macro arguments given without braces in math

---
 .../parser/handlers/command_processor.py      | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 5bbf16a..c06987e 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -34,6 +34,30 @@ class CommandEntry(TypedDict):
     math_mode_only: Optional[bool] = False
 
 
+# an argument without braces: a single command or character
+SINGLE_TOKEN_ARG_PATTERN = re.compile(
+    r"\s*(\\(?:[a-zA-Z@]+|.)|[^\s{}\[\]&$%#~\\])", re.DOTALL
+)
+
+
+def extract_required_args(
+    text: str, num_args: int, math_mode: bool = False
+) -> Tuple[List[str], int]:
+    r"""Extract {...} arguments, or in math mode also single tokens e.g. \foo{a}\alpha b"""
+    args = []
+    end_pos = 0
+    while len(args) < num_args:
+        arg, pos = extract_nested_content(text[end_pos:], "{", "}")
+        if arg is None:
+            match = math_mode and SINGLE_TOKEN_ARG_PATTERN.match(text, end_pos)
+            if not match:
+                break
+            arg, pos = match.group(1), match.end() - end_pos
+        args.append(arg)
+        end_pos += pos
+    return args, end_pos
+
+
 def default_ignore_handler(
     match: re.Match[str], text: str, math_mode: bool = False
 ) -> Tuple[str, int]:
@@ -228,8 +252,8 @@ class CommandProcessor:
                 args_left = num_args - num_optional
                 if args_left > 0:
                     start_pos = end_pos
-                    blocks, end_pos = extract_nested_content_sequence_blocks(
-                        text[start_pos:], "{", "}", args_left
+                    blocks, end_pos = extract_required_args(
+                        text[start_pos:], args_left, math_mode
                     )
                     end_pos += start_pos
                     for block in blocks:
-- 
2.43.0


From 579eb121ba6f1d2744429d830d257ee526605519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 024/132] fix: arguments of def macros with nested braces or a
 command

---
 latex2json/parser/handlers/new_definition.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 233869d..e7262ed 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -122,6 +122,11 @@ PATTERNS = {
 
 USAGE_SUFFIX = r"(?![a-zA-Z@])"
 
+# text with balanced braces (up to some depth)
+NESTED_BRACES_PATTERN = r"(?:[^{}\\]|\\.)*"
+for _ in range(6):
+    NESTED_BRACES_PATTERN = r"(?:[^{}\\]|\\.|\{%s\})*" % NESTED_BRACES_PATTERN
+
 
 def extract_and_concat_nested_csname(content: str) -> Tuple[str, int]:
     match = START_CSNAME_PATTERN.match(content)
@@ -587,7 +592,9 @@ class NewDefinitionHandler(TokenHandler):
             # Add the args pattern to capture delimiters and args e.g. {xxx} or x
             # e.g. \def\foo#1{bar #1} \foo{xxx} will match 'xxx' arg, \foo xaaa will match 'x' arg
             # Update regex to handle escaped braces and normal braces
-            args_part_pattern = r"\s*(?:\{((?:[^{}]|\\\{|\\\}|{[^{}]*})*)\}|([^\}]+?))"
+            args_part_pattern = (
+                r"\s*(?:\{(%s)\}|(\\[a-zA-Z@]+|[^\}]+?))" % NESTED_BRACES_PATTERN
+            )
 
             current_pos = 0
             for param in re.finditer(r"#(\d+)", args):
-- 
2.43.0


From f3ae275d24ec6634a8ea7543dd0f89f45df55bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 025/132] fix: alias of a macro with arguments, redefinitions
 take effect where they are made

---
 latex2json/parser/handlers/command_manager.py |  8 +++++-
 .../parser/handlers/command_processor.py      | 27 +++++++++++++++++++
 latex2json/parser/tex_preprocessor.py         | 21 +++++++++++++--
 3 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index 094c463..55f87fb 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -108,7 +108,7 @@ class CommandManager(TokenHandler):
         ignore_sty = token.get("is_sty", False) and self.ignore_sty_commands
         math_mode_only = token.get("math_mode_only", False)
         if token["type"] == "newcommand":
-            if token.get("is_provide") and self.processor.has_command(cmd_name):
+            if token.get("is_provide") and self.has_command(cmd_name):
                 # \\providecommand does not override an existing definition
                 return
             # Check for recursion like tex_parser does
@@ -179,6 +179,12 @@ class CommandManager(TokenHandler):
         # elif token["type"] == "keyval_setting":
         #     self.processor.process_keyval_setting(token["family"], token["key_values"])
 
+    def has_command(self, cmd_name: str) -> bool:
+        return self.processor.has_command(cmd_name)
+
+    def unregister_command(self, cmd_name: str) -> None:
+        self.processor.remove_command(cmd_name)
+
     def expand_commands(
         self, content: str, ignore_unicode: bool = False, math_mode: bool = False
     ) -> Tuple[str, int]:
diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index c06987e..e60ccb1 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -15,6 +15,7 @@ from latex2json.utils.tex_utils import (
 from latex2json.parser.handlers.new_definition import (
     END_CSNAME_PATTERN,
     START_CSNAME_PATTERN,
+    USAGE_SUFFIX,
     extract_and_concat_nested_csname,
     command_pattern,
 )
@@ -32,6 +33,8 @@ class CommandEntry(TypedDict):
     handler: Callable[[re.Match[str], str, Optional[bool]], Tuple[str, int]]
     definition: Optional[str]
     math_mode_only: Optional[bool] = False
+    num_args: Optional[int] = 0
+    args_pattern: Optional[str] = ""
 
 
 # an argument without braces: a single command or character
@@ -138,6 +141,10 @@ class CommandProcessor:
     def has_command(self, command_name: str) -> bool:
         return command_name in self._all_commands
 
+    def remove_command(self, command_name: str) -> None:
+        self.commands.pop(command_name, None)
+        self.let_commands.pop(command_name, None)
+
     def get_command_iter(self, math_mode=False):
         """
         Returns an iterator over commands, filtered by math_mode if specified.
@@ -157,6 +164,18 @@ class CommandProcessor:
                     yield cmd
 
     def process_let(self, command_name: str, definition: str, usage_pattern: str):
+        # an alias of a macro with arguments
+        target = self._all_commands.get(definition[1:])
+        if definition.startswith("\\") and target and target.get("num_args"):
+            self.commands[command_name] = {
+                **target,
+                "pattern": re.compile(
+                    usage_pattern + target.get("args_pattern", ""), re.DOTALL
+                ),
+            }
+            self.let_commands.pop(command_name, None)
+            return
+
         # for let, we evaluate the definition right way
         definition = self.expand_commands(definition, True)[0]
 
@@ -270,6 +289,7 @@ class CommandProcessor:
                 "handler": handler,
                 "definition": definition,
                 "math_mode_only": math_mode_only,
+                "num_args": num_args,
             }
             self.commands[command_name] = command
             self.let_commands.pop(command_name, None)
@@ -343,11 +363,18 @@ class CommandProcessor:
         if expand_definition:
             definition = self.expand_commands(definition, True)[0]
 
+        # what follows the command itself i.e. its arguments
+        _, _, args_pattern = usage_pattern.partition(
+            re.escape(command_name) + USAGE_SUFFIX
+        )
+
         try:
             command: CommandEntry = {
                 "pattern": re.compile(usage_pattern, re.DOTALL),
                 "handler": handler,
                 "definition": definition,
+                "num_args": num_args,
+                "args_pattern": args_pattern,
             }
             self.commands[command_name] = command
             self.let_commands.pop(command_name, None)
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 98550b7..221d981 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -193,6 +193,7 @@ class LatexPreprocessor:
         tokens = []  # Store all definition tokens
 
         math_blocks = {}
+        deferred = set()  # macros whose expansion is left to the parser
 
         while current_pos < len(content):
             # find the next delimiter (this block allows us to quickly identify and process chunks of text between special LaTeX delimiters
@@ -270,12 +271,28 @@ class LatexPreprocessor:
                     continue
                 # Skip macro definitions that have parameters (#1, #2) or take arguments,
                 # as these need to be expanded later when actual values are provided
-                if token.get("num_args", 0) > 0 or check_string_has_hash_number(
-                    token.get("content", "")
+                name = token.get("name", "")
+                is_redefinition = (
+                    name in deferred or self.command_manager.has_command(name)
+                )
+                if is_redefinition and token.get("is_provide"):
+                    current_pos += end_pos
+                    continue
+                if (
+                    token.get("num_args", 0) > 0
+                    or check_string_has_hash_number(token.get("content", ""))
+                    # alias of such a macro
+                    or (token["type"] == "let" and token["content"][1:] in deferred)
                 ):
+                    deferred.add(name)
+                    self.command_manager.unregister_command(name)
                     current_pos += end_pos
                     continue
                 self._process_new_definition_token(token)
+                if is_redefinition:
+                    # keep it in place, since what comes before it uses the previous definition
+                    current_pos += end_pos
+                    continue
                 tokens.append(token)
                 if end_pos > 0:
                     content = content[:current_pos] + content[current_pos + end_pos :]
-- 
2.43.0


From af67053055e15a9959206a66d660c2c62fe3da6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 026/132] fix: keep a url with a percent sign and a
 textbackslash while preprocessing

---
 latex2json/parser/handlers/formatting.py | 2 +-
 latex2json/parser/tex_preprocessor.py    | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 808ae6b..de263cd 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -379,7 +379,7 @@ class FormattingHandler(TokenHandler):
                 elif pattern_name == "indent":
                     return {"type": "text", "content": "\t"}, match.end()
                 elif pattern_name == "backslash":
-                    return {"type": "text", "content": r"\\"}, match.end()
+                    return {"type": "text", "content": "\\"}, match.end()
                 elif pattern_name == "spacing":
                     if match.group(0) == r"\!":
                         return None, match.end()
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 221d981..c47ecda 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -309,7 +309,10 @@ class LatexPreprocessor:
 
             # check for formatting (put formatting ahead so that we can ignore lots of unnecessary things)
             if self.formatting_handler.can_handle(content[current_pos:]):
-                token, end_pos = self.formatting_handler.handle(content[current_pos:])
+                # comments are already stripped, so a remaining % belongs to e.g. an url
+                token, end_pos = self.formatting_handler.handle(
+                    content[current_pos:], exclude_patterns=["comment", "backslash"]
+                )
                 if end_pos > 0:
                     block = ""
                     if token:
-- 
2.43.0


From 2751061f28898276583833697d6a4288cc374091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 027/132] fix: escaped braces in table cells

---
 latex2json/parser/handlers/tabular.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index f920e8e..0f1eeca 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -7,6 +7,7 @@ from latex2json.utils.tex_utils import (
     extract_nested_content_pattern,
     extract_nested_content_sequence_blocks,
     find_matching_env_block,
+    is_escaped as is_escaped_char,
 )
 
 
@@ -62,7 +63,9 @@ def split_latex_content(
             # If odd number of backslashes, the delimiter is escaped
             is_escaped = (backslash_count % 2) == 1
 
-        if content[i] == "{":
+        if content[i] in "{}" and is_escaped_char(i, content):
+            current_part.append(content[i])
+        elif content[i] == "{":
             nesting_level += 1
             current_part.append(content[i])
         elif content[i] == "}":
-- 
2.43.0


From d8b66e970c2450d921c35e3c9c84302a73c04196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 028/132] fix: keep the spans and surroundings of makecell,
 multirow options, spans of nested tabulars

---
 latex2json/parser/handlers/tabular.py | 95 +++++++++++++++++++--------
 1 file changed, 67 insertions(+), 28 deletions(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 0f1eeca..67f03f6 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -21,7 +21,9 @@ TABULAR_PATTERN = re.compile(
 )
 
 MULTICOLUMN_PATTERN = re.compile(r"\\multicolumn\s*{(\d+)}\s*{", re.DOTALL)
-MULTIROW_PATTERN = re.compile(r"\\multirow\s*{(\d+)}\s*{", re.DOTALL)
+MULTIROW_PATTERN = re.compile(
+    r"\\multirow\s*(?:\[[^\]]*\])?\s*{\s*-?(\d+)\s*}\s*(?:\[[^\]]*\])?\s*{", re.DOTALL
+)
 
 
 MAKECELL_SHORTSTACK_PATTERN = re.compile(
@@ -109,15 +111,38 @@ def split_rows(latex_table: str) -> List[str]:
 
 def split_cells(row: str) -> List[str]:
     """Split row into cells while respecting nested structures."""
-    cells = split_latex_content(row, "&", is_row_split=False)
-    out_cells = []
-    for cell in cells:
-        if cell:
-            match = MAKECELL_SHORTSTACK_PATTERN.search(cell)
-            if match:
-                cell, end_pos = extract_nested_content(cell[match.end() - 1 :])
-        out_cells.append(cell)
-    return out_cells
+    return split_latex_content(row, "&", is_row_split=False)
+
+
+def unwrap_makecells(cell: str) -> str:
+    r"""Replace each \makecell{...} or \shortstack{...} of a cell with what is inside"""
+    pos = 0
+    while True:
+        match = MAKECELL_SHORTSTACK_PATTERN.search(cell, pos)
+        if not match:
+            return cell
+        inner, end_pos = extract_nested_content(cell[match.end() - 1 :])
+        if inner is None:
+            pos = match.end()
+            continue
+        end_pos += match.end() - 1
+        cell = cell[: match.start()] + inner + cell[end_pos:]
+        pos = match.start()
+
+
+def unwrap_span(content: str, pattern: re.Pattern) -> Tuple[str, str, int]:
+    r"""Split e.g. \multirow{2}{*}{content} into '\multirow{2}{*}{', content and the span"""
+    match = pattern.search(content)
+    if match:
+        start_pos = match.end() - 1
+        blocks, end_pos = extract_nested_content_sequence_blocks(
+            content[start_pos:], max_blocks=2
+        )
+        inner = blocks[-1] if blocks else ""
+        prefix = content[match.start() : start_pos + end_pos - len(inner) - 1]
+        content = content[: match.start()] + inner + content[start_pos + end_pos :]
+        return prefix, content.strip(), int(match.group(1))
+    return "", content, 1
 
 
 def parse_tabular(latex_table: str, cell_parser_fn=None) -> List[List[Dict]]:
@@ -144,28 +169,14 @@ def parse_tabular(latex_table: str, cell_parser_fn=None) -> List[List[Dict]]:
             for cell in cells:
                 # Parse nested multicolumn/multirow
                 content = cell
-                colspan = 1
-                rowspan = 1
 
                 # Handle multicolumn first
-                mcol_match = MULTICOLUMN_PATTERN.search(content)
-                if mcol_match:
-                    colspan = int(mcol_match.group(1))
-                    start_pos = mcol_match.end() - 1
-                    blocks, end_pos = extract_nested_content_sequence_blocks(
-                        content[start_pos:], max_blocks=2
-                    )
-                    content = blocks[-1].strip() if blocks else ""
+                _, content, colspan = unwrap_span(content, MULTICOLUMN_PATTERN)
 
                 # Then handle multirow within the content
-                mrow_match = MULTIROW_PATTERN.search(content)
-                if mrow_match:
-                    rowspan = int(mrow_match.group(1))
-                    start_pos = mrow_match.end() - 1
-                    blocks, end_pos = extract_nested_content_sequence_blocks(
-                        content[start_pos:], max_blocks=2
-                    )
-                    content = blocks[-1].strip() if blocks else ""
+                _, content, rowspan = unwrap_span(content, MULTIROW_PATTERN)
+
+                content = unwrap_makecells(content)
 
                 # Create cell structure
                 parsed_content = cell_parser_fn(content) if cell_parser_fn else content
@@ -195,6 +206,26 @@ def parse_tabular(latex_table: str, cell_parser_fn=None) -> List[List[Dict]]:
     return parsed_rows
 
 
+def find_nested_tabular_end(content: str, pos: int) -> int:
+    """If pos is inside of a nested tabular, return where that tabular ends (otherwise -1)"""
+    start_pos = 0
+    while True:
+        match = TABULAR_PATTERN.search(content, start_pos)
+        if not match or match.start() > pos:
+            return -1
+        if match.group(1):
+            env_name = match.group(0).split("{")[1].rstrip("}")
+            _, end_pos, _ = find_matching_env_block(content, env_name, match.start())
+        else:
+            _, end_pos, _ = extract_nested_content_pattern(
+                content[match.start() :], r"\\tabular", r"\\endtabular"
+            )
+            end_pos += match.start()
+        if end_pos > pos:
+            return end_pos
+        start_pos = max(end_pos, match.end())
+
+
 def extract_table_structures(content: str) -> Tuple[str, Dict[str, Dict]]:
     """Extract multicolumn, multirow and makecell structures and replace with references"""
     reference_map = {}
@@ -215,6 +246,14 @@ def extract_table_structures(content: str) -> Tuple[str, Dict[str, Dict]]:
             if not match:
                 break
 
+            # leave nested tabulars to themselves
+            nested_end_pos = find_nested_tabular_end(
+                current_content, pos + match.start()
+            )
+            if nested_end_pos > 0:
+                pos = nested_end_pos
+                continue
+
             start_pos = pos + match.end() - 1
             blocks, end_pos = extract_nested_content_sequence_blocks(
                 current_content[start_pos:], max_blocks=block_count
-- 
2.43.0


From 3c52d0f83487673895225eb815c02d096e269feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 029/132] fix: restore spans and makecells inside of styled
 table cells

---
 latex2json/parser/handlers/tabular.py | 54 +++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 67f03f6..a79a64d 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -318,6 +318,55 @@ class TabularHandler(BaseEnvironmentHandler):
             content = self.cell_parser_fn(content)
         return self._clean_cell(content)
 
+    def _restore_styled_structures(
+        self, tokens: List[Dict], table_structures: Dict[str, Dict], styles=[]
+    ) -> List[Dict]:
+        r"""Restore the table structures inside of styled tokens e.g. \textbf{\multirow{2}{*}{content}}
+        i.e. \multirow{2}{*}{ as plain text, then the styled content, then }"""
+        out = []
+        for token in tokens:
+            text = token.get("content")
+            token_styles = list(dict.fromkeys(styles + token.get("styles", [])))
+            is_text = token.get("type") == "text" and isinstance(text, str)
+            ref_key = (
+                next((k for k in table_structures if k in text), None)
+                if is_text and token_styles
+                else None
+            )
+            if token.get("type") == "group" and isinstance(text, list):
+                children = self._restore_styled_structures(
+                    text, table_structures, token_styles
+                )
+                out.extend(children if children != text else [token])
+            elif ref_key is not None:
+                before, _, after = text.partition(ref_key)
+                prefix, inner = "", table_structures[ref_key]["content"]
+                for pattern in [MULTICOLUMN_PATTERN, MULTIROW_PATTERN]:
+                    span_prefix, inner, _ = unwrap_span(inner, pattern)
+                    prefix += span_prefix
+                inner = unwrap_makecells(inner)
+                inner_tokens = (
+                    self.cell_parser_fn(inner)
+                    if self.cell_parser_fn
+                    else [{"type": "text", "content": inner}]
+                )
+                parts = [{"type": "text", "content": before}, *inner_tokens]
+                if after:
+                    parts.append({"type": "text", "content": after})
+                parts = [p for p in parts if p["content"]]
+                out.append({"type": "text", "content": prefix})
+                out.extend(
+                    self._restore_styled_structures(
+                        parts, table_structures, token_styles
+                    )
+                )
+                out.append({"type": "text", "content": "}" * prefix.count("\\multi")})
+            else:
+                if token_styles:
+                    token = {**token, "styles": token_styles}
+                out.append(token)
+        return out
+
     def handle(
         self, content: str, prev_token: Optional[Dict] = None
     ) -> Tuple[Optional[Dict], int]:
@@ -386,6 +435,11 @@ class TabularHandler(BaseEnvironmentHandler):
                 else inner_content
             )
 
+            if table_structures and isinstance(processed_content, list):
+                processed_content = self._restore_styled_structures(
+                    processed_content, table_structures
+                )
+
             # then flatten it out to text form and pass it to parse_tabular
             flattened_content, reference_map = flatten_tokens(processed_content)
 
-- 
2.43.0


From 71daf94cd456c1c16242c29ba9a49307d4fe2001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 030/132] fix: keep saved boxes and cite aliases per parser,
 copy a used box

---
 latex2json/parser/handlers/content_command.py |  4 +++-
 latex2json/parser/handlers/equation.py        |  1 +
 latex2json/parser/packages/boxes.py           | 12 ++++++++----
 latex2json/parser/tex_preprocessor.py         |  1 +
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index ef0cc6d..f8d6687 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -85,7 +85,9 @@ GENERIC_COMMAND_PATTERN = re.compile(r"\\[a-zA-Z]+\b")
 
 
 class ContentCommandHandler(TokenHandler):
-    citealias = {}  # key, alias/title
+    def __init__(self, process_content_fn: Optional[Callable] = None):
+        super().__init__(process_content_fn)
+        self.citealias = {}  # key, alias/title
 
     def clear(self):
         self.citealias = {}
diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index 5b2e27c..d92e352 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -64,6 +64,7 @@ class EquationHandler(TokenHandler):
 
     def clear(self):
         self.box_handler.clear()
+        self.content_command.clear()
 
     def can_handle(self, content: str) -> bool:
         """Check if content contains an equation pattern."""
diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index 6dd435a..247dc86 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -1,4 +1,5 @@
-from typing import Dict, List, Tuple, Optional
+from typing import Any, Callable, Dict, List, Tuple, Optional
+from copy import deepcopy
 import re
 
 from latex2json.parser.handlers.base import TokenHandler
@@ -66,8 +67,10 @@ def parse_varname_from_brace_or_backslash(var_name: str) -> Tuple[Optional[str],
 
 
 class BoxHandler(TokenHandler):
-    saved_boxes = {}
-    numbered_boxes = {}  # Add storage for numbered boxes
+    def __init__(self, process_content_fn: Optional[Callable[[str], Any]] = None):
+        super().__init__(process_content_fn)
+        self.saved_boxes = {}
+        self.numbered_boxes = {}  # Add storage for numbered boxes
 
     def can_handle(self, content: str) -> bool:
         return bool(
@@ -171,7 +174,8 @@ class BoxHandler(TokenHandler):
         elif command == "usebox":
             # Return the saved box content if it exists
             if box_name in self.saved_boxes and self.saved_boxes[box_name] is not None:
-                return self.saved_boxes[box_name], match.end()
+                # a copy, since tokens are altered afterwards e.g. their styles
+                return deepcopy(self.saved_boxes[box_name]), match.end()
 
         return None, match.end()
 
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index c47ecda..90acd47 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -81,6 +81,7 @@ class LatexPreprocessor:
         self.if_else_block_handler.clear()
         self.command_manager.clear()
         self.sty_parser.clear()
+        self.equation_handler.clear()
 
     def preprocess(self, content: str, file_dir=None) -> tuple[str, list[Dict]]:
         """Main preprocessing pipeline
-- 
2.43.0


From 8d033ec3e99ffe94167ac57b69d8c9d02bebbc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 031/132] fix: refuse archive links leading outside, remove the
 temp dir of a failed archive, allow cleanup twice

---
 latex2json/tex_file_extractor.py | 13 ++++++++++++-
 latex2json/tex_reader.py         |  4 +++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index d8ef713..c189ccd 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -134,7 +134,14 @@ class TexFileExtractor:
                         # Extract only safe members (use filter='data' in Python 3.12+ for better security)
                         # For broader compatibility, we extract member by member after checks
                         for member in safe_members:
-                            tar.extract(member, temp_dir)
+                            try:
+                                # the data filter also refuses links leading outside
+                                # of temp_dir and special files
+                                tar.extract(member, temp_dir, filter="data")
+                            except tarfile.FilterError as e:
+                                print(
+                                    f"[WARNING] Skipping potentially unsafe member in tar.gz: {e}"
+                                )
 
                     main_tex, main_folder_abs = TexFileExtractor.find_main_tex_file(
                         temp_dir
@@ -203,6 +210,10 @@ class TexFileExtractor:
             # Yield the relative path of main_tex from temp_dir and temp_dir itself
             yield main_tex, temp_dir
 
+        except BaseException:
+            # the caller gets no result to clean up later
+            cleanup = True
+            raise
         finally:
             # Clean up temporary directory
             if cleanup:
diff --git a/latex2json/tex_reader.py b/latex2json/tex_reader.py
index cc98317..c333abb 100644
--- a/latex2json/tex_reader.py
+++ b/latex2json/tex_reader.py
@@ -28,7 +28,9 @@ class ProcessingResult:
     def cleanup(self):
         """Clean up temporary resources."""
         if self.temp_dir:
-            shutil.rmtree(self.temp_dir)
+            # may have been removed already by process_compressed
+            if os.path.exists(self.temp_dir):
+                shutil.rmtree(self.temp_dir)
             self.temp_dir = None
 
 
-- 
2.43.0


From 467867f2dc85eb4b5f9536ebfbf5e3208f270be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 032/132] fix: bibtex bare values, unbalanced braces, percent
 signs and encodings of bib files

---
 latex2json/parser/bib/bib_parser.py    | 16 ++++++++++++----
 latex2json/parser/bib/bibdiv_parser.py |  3 +++
 latex2json/parser/bib/bibtex_parser.py | 19 ++++++++++++++++---
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index e8c7323..ef75df0 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -1,6 +1,7 @@
 from logging import Logger
 import logging
 import os
+import re
 from typing import List
 
 from latex2json.parser.bib.bibtex_parser import (
@@ -9,6 +10,8 @@ from latex2json.parser.bib.bibtex_parser import (
 )
 from latex2json.parser.bib.bibdiv_parser import BibDivParser
 from latex2json.parser.bib.bibitem_parser import BibItemParser
+from latex2json.parser.bib.compiled_bibtex import is_compiled_bibtex
+from latex2json.utils.encoding import read_file
 from latex2json.utils.tex_utils import (
     strip_latex_comments,
     normalize_whitespace_and_lines,
@@ -17,7 +20,11 @@ from latex2json.utils.tex_utils import (
 
 def preprocess(content: str) -> str:
     """Preprocess content to remove comments and normalize whitespace"""
-    content = strip_latex_comments(content)
+    if BibTexParser.is_bibtex(content) and not is_compiled_bibtex(content):
+        # % does not start a comment in bibtex values, e.g. urls
+        content = re.sub(r"^[ \t]*%.*$", "", content, flags=re.MULTILINE)
+    else:
+        content = strip_latex_comments(content)
     content = normalize_whitespace_and_lines(content)
     return content.strip()
 
@@ -67,8 +74,7 @@ class BibParser:
         #     self.logger.warning(f"BibParser: Already parsed {file_path}")
         #     return None
         # self._parsed_files.add(file_path)
-        with open(file_path, "r") as f:
-            return f.read()
+        return read_file(file_path)
 
     def parse_file(self, file_path: str) -> List[BibTexEntry]:
         """Parse a bibliography file and return list of entries.
@@ -106,7 +112,9 @@ class BibParser:
                 bib_content = self._open_file(main_bbl)
             else:
                 # Look for any .bbl file
-                bbl_files = [f for f in os.listdir(directory) if f.endswith(".bbl")]
+                bbl_files = [
+                    f for f in os.listdir(directory or ".") if f.endswith(".bbl")
+                ]
                 if bbl_files:
                     first_bbl = os.path.join(directory, bbl_files[0])
                     self.logger.info(f"Bib fallback -> Found {bbl_files[0]}")
diff --git a/latex2json/parser/bib/bibdiv_parser.py b/latex2json/parser/bib/bibdiv_parser.py
index 1e443b2..45c9124 100644
--- a/latex2json/parser/bib/bibdiv_parser.py
+++ b/latex2json/parser/bib/bibdiv_parser.py
@@ -101,6 +101,9 @@ class BibDivParser:
                         else:
                             fields[field_name] = value
                         pos = field_start + value_end
+                    else:
+                        # unbalanced braces
+                        pos = field_start + 1
                 else:
                     # Handle values until comma
                     comma_pos = entry_content.find(",", field_start)
diff --git a/latex2json/parser/bib/bibtex_parser.py b/latex2json/parser/bib/bibtex_parser.py
index 40e896f..45e305a 100644
--- a/latex2json/parser/bib/bibtex_parser.py
+++ b/latex2json/parser/bib/bibtex_parser.py
@@ -140,14 +140,27 @@ class BibTexParser:
                     if value is not None:
                         fields[field_name] = value.strip()
                         pos = field_start + value_end
+                    else:
+                        # unbalanced braces
+                        pos = field_start + 1
                 else:
-                    # Handle quoted values
-                    quote_match = re.match(r'\s*"([^"]*)"', fields_text[field_start:])
+                    # Handle quoted values (quotes inside of braces belong to the value)
+                    quote_match = re.match(
+                        r'\s*"((?:[^"{}]|\{[^{}]*\})*|[^"]*)"', fields_text[field_start:]
+                    )
                     if quote_match:
                         fields[field_name] = quote_match.group(1)
                         pos = field_start + quote_match.end()
                     else:
-                        pos = field_start + 1
+                        # Handle bare values: numbers and abbreviations
+                        bare_match = re.match(
+                            r"[^\s,{}\"=]+", fields_text[field_start:]
+                        )
+                        if bare_match:
+                            fields[field_name] = bare_match.group(0)
+                            pos = field_start + bare_match.end()
+                        else:
+                            pos = field_start + 1
 
                 # Skip trailing comma and whitespace
                 while pos < len(fields_text) and (
-- 
2.43.0


From a5c9c5fad33cbd367ec69e4c9a5377406b41e538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 033/132] fix: keep the space before a brace group

---
 latex2json/parser/tex_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index a182291..7f6e285 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -529,8 +529,13 @@ class LatexParser:
                     # Parse the content within the braces
                     nested_tokens = self.parse(inner_content)
                     if nested_tokens:
+                        # keep the space before or right inside of the brace
+                        add_space = (
+                            current_pos > 0 and content[current_pos - 1].isspace()
+                        ) or inner_content[0].isspace()
                         for token in nested_tokens:
-                            self.add_token(token, tokens)
+                            self.add_token(token, tokens, add_space)
+                            add_space = False
                     current_pos += end_pos
                     continue
 
-- 
2.43.0


From 57492b11b26c9351df3c8e42c721199c2c2b16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 034/132] fix: nest subparagraphs in their paragraph inside of
 sections too

---
 latex2json/structure/builder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index abbc997..b89a6aa 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -316,11 +316,12 @@ class TokenBuilder:
         while stack and stack[-1]["level"] >= token["level"]:
             stack.pop()
 
-        # Determine where to add the token
+        # Determine where to add the token e.g. a subparagraph goes into its paragraph,
+        # which goes into its section
         target = (
-            parent_stack[-1]["content"]
-            if parent_stack
-            else (stack[-1]["content"] if stack else organized)
+            stack[-1]["content"]
+            if stack
+            else (parent_stack[-1]["content"] if parent_stack else organized)
         )
         target.append(token)
 
-- 
2.43.0


From f1a9add9f0f2104961130299c49d313a4ac456af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 035/132] fix: strip comment environments like comments,
 whatever they hold

---
 latex2json/utils/tex_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index b551f3e..95afe9f 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -322,13 +322,15 @@ def is_escaped(pos: int, text: str) -> bool:
     return count_preceding_backslashes(text, pos) % 2 == 1
 
 
-# a comment, or anything whose % signs do not start one: verbatim text, urls, escaped characters
+# a comment (also a comment environment), or anything whose % signs do not start one:
+# verbatim text, urls, escaped characters
 COMMENT_PATTERN = re.compile(
     r"\\begin\s*\{(verbatim|lstlisting)\}.*?\\end\s*\{\1\}"
     r"|\\verb\*?([^a-zA-Z\s*])[^\n]*?\2"
     r"|\\(?:url|href)\s*\{[^{}\n]*\}"
-    r"|\\."
-    r"|(?P<comment>%[^\n\r\v\f\x1c-\x1e\x85\u2028\u2029]*)",
+    r"|(?P<comment>%[^\n\r\v\f\x1c-\x1e\x85\u2028\u2029]*"
+    r"|\\begin\s*\{comment\}.*?\\end\s*\{comment\})"
+    r"|\\.",
     re.DOTALL,
 )
 
-- 
2.43.0


From 7e15fe5a8c705c81bc1985c73fd20865e0fc4a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 036/132] fix: environments and items are not ended by what
 verbatim text holds

---
 latex2json/parser/handlers/item.py | 11 +++++++----
 latex2json/utils/tex_utils.py      | 23 +++++++++++++++++++++--
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/latex2json/parser/handlers/item.py b/latex2json/parser/handlers/item.py
index 19d9ec4..a3f3201 100644
--- a/latex2json/parser/handlers/item.py
+++ b/latex2json/parser/handlers/item.py
@@ -4,6 +4,7 @@ from latex2json.parser.handlers.environment import (
     BaseEnvironmentHandler,
     find_pattern_while_skipping_nested_envs,
 )
+from latex2json.utils.tex_utils import mask_verbatim
 
 # title of an item, whose brackets and braces may nest e.g. [\cite[p. 1]{key}] or [{[1]}]
 ITEM_TITLE_PATTERN = (
@@ -25,15 +26,17 @@ class ItemHandler(BaseEnvironmentHandler):
     def handle(
         self, content: str, prev_token: Optional[Dict] = None
     ) -> Tuple[Optional[Dict], int]:
-        match = ITEM_PATTERN.match(content)
+        # an \item in verbatim text is not an item
+        masked = mask_verbatim(content)
+        match = ITEM_PATTERN.match(masked)
         if match:
-            end_of_item = match.group(2)
+            end_of_item = content[match.start(2) : match.end(2)]
             end_pos = match.end()
             if end_of_item or match.group(1):
                 # check to see and skip any nested environments that may contain inner \item
                 start = match.start(2)
                 out_end_pos = find_pattern_while_skipping_nested_envs(
-                    content, ITEM_PATTERN, start_pos=start
+                    masked, ITEM_PATTERN, start_pos=start
                 )
                 if out_end_pos != -1:
                     end_pos = out_end_pos
@@ -42,7 +45,7 @@ class ItemHandler(BaseEnvironmentHandler):
                 token["type"] = "item"
                 del token["name"]
                 if match.group(1):
-                    token["title"] = match.group(1).strip()
+                    token["title"] = content[match.start(1) : match.end(1)].strip()
                 return token, end_pos
 
             return None, end_pos
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 95afe9f..265dbb6 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -111,6 +111,23 @@ def extract_nested_content_sequence_blocks(
     return blocks, last_valid_pos
 
 
+VERBATIM_TEXT_PATTERN = re.compile(
+    r"(?P<verbatim>\\begin\s*\{(?P<env>verbatim|lstlisting)\}.*?\\end\s*\{(?P=env)\}"
+    r"|\\verb\*?(?P<delim>[^a-zA-Z\s*])[^\n]*?(?P=delim))"
+    r"|\\.",
+    re.DOTALL,
+)
+
+
+def mask_verbatim(text: str) -> str:
+    """Blank out verbatim text, keeping all positions, to search text for LaTeX"""
+    if "verb" not in text and "lstlisting" not in text:
+        return text
+    return VERBATIM_TEXT_PATTERN.sub(
+        lambda m: " " * len(m.group(0)) if m.group("verbatim") else m.group(0), text
+    )
+
+
 def extract_nested_content_pattern(
     text: str, begin_pattern: re.Pattern | str, end_pattern: re.Pattern | str
 ) -> Tuple[int, int, str]:
@@ -137,11 +154,13 @@ def extract_nested_content_pattern(
     current_pos = begin_match.end()
     content_start = current_pos
     start_pos = begin_match.start()
+    # do not match anything written in verbatim text
+    masked = text[:content_start] + mask_verbatim(text[content_start:])
 
     while nesting_level > 0 and current_pos < len(text):
         # Find next begin/end patterns
-        begin_match = begin_pattern.search(text, current_pos)
-        end_match = end_pattern.search(text, current_pos)
+        begin_match = begin_pattern.search(masked, current_pos)
+        end_match = end_pattern.search(masked, current_pos)
 
         if not end_match:
             return -1, -1, ""
-- 
2.43.0


From f2b2cc85c5c1af6518ffe7e4b6e7e2f4f4d99445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 037/132] fix: braces in verbatim text do not close groups and
 arguments

---
 latex2json/utils/tex_utils.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 265dbb6..4e84db4 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -5,6 +5,14 @@ import os
 from latex2json.utils.encoding import detect_encoding, read_file
 
 
+VERBATIM_TEXT_PATTERN = re.compile(
+    r"(?P<verbatim>\\begin\s*\{(?P<env>verbatim|lstlisting)\}.*?\\end\s*\{(?P=env)\}"
+    r"|\\verb\*?(?P<delim>[^a-zA-Z\s*{}])[^\n]*?(?P=delim))"
+    r"|\\.",
+    re.DOTALL,
+)
+
+
 def count_preceding_backslashes(text: str, pos: int) -> int:
     """Count number of backslashes immediately preceding the position."""
     count = 0
@@ -43,6 +51,12 @@ def find_matching_delimiter(
     stack = []
     i = start
     while i < len(text):
+        if text[i] == "\\" and text.startswith(("\\verb", "\\begin"), i):
+            # delimiters in verbatim text do not count
+            verbatim = VERBATIM_TEXT_PATTERN.match(text, i)
+            if verbatim.group("verbatim") and not is_escaped(i, text):
+                i = verbatim.end()
+                continue
         if text[i] == open_delim and not is_escaped(i, text):
             stack.append(i)
         elif text[i] == close_delim and not is_escaped(i, text):
@@ -111,14 +125,6 @@ def extract_nested_content_sequence_blocks(
     return blocks, last_valid_pos
 
 
-VERBATIM_TEXT_PATTERN = re.compile(
-    r"(?P<verbatim>\\begin\s*\{(?P<env>verbatim|lstlisting)\}.*?\\end\s*\{(?P=env)\}"
-    r"|\\verb\*?(?P<delim>[^a-zA-Z\s*])[^\n]*?(?P=delim))"
-    r"|\\.",
-    re.DOTALL,
-)
-
-
 def mask_verbatim(text: str) -> str:
     """Blank out verbatim text, keeping all positions, to search text for LaTeX"""
     if "verb" not in text and "lstlisting" not in text:
-- 
2.43.0


From c1227cba6b78a30b09296eb1a8170a5b4e95758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 038/132] fix: keep items holding only verbatim text

---
 latex2json/utils/tex_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 4e84db4..b80bbcc 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -130,7 +130,7 @@ def mask_verbatim(text: str) -> str:
     if "verb" not in text and "lstlisting" not in text:
         return text
     return VERBATIM_TEXT_PATTERN.sub(
-        lambda m: " " * len(m.group(0)) if m.group("verbatim") else m.group(0), text
+        lambda m: "." * len(m.group(0)) if m.group("verbatim") else m.group(0), text
     )
 
 
-- 
2.43.0


From 0f46ddcc2dc536cf5df46839759f4d138078bad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 039/132] fix: keep a backslash symbol in math

---
 latex2json/parser/handlers/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index d92e352..294a87a 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -76,7 +76,7 @@ class EquationHandler(TokenHandler):
         while backslash_pos >= 0:
             incr = 1
             x, end_pos = self.formatter.handle(
-                equation[backslash_pos:], exclude_patterns=["spacing"]
+                equation[backslash_pos:], exclude_patterns=["spacing", "backslash"]
             )
             if end_pos > 0:
                 content = ""
-- 
2.43.0


From 5fbb2383f07f88d75c798d7766755eedeb9f71f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 040/132] fix: match names of length, rule and spacing commands
 exactly

---
 latex2json/parser/handlers/content_command.py |  2 +-
 latex2json/parser/handlers/formatting.py      | 22 +++++++++----------
 latex2json/parser/handlers/new_definition.py  |  2 +-
 latex2json/parser/handlers/text_formatting.py |  2 +-
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index f8d6687..49278b3 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -45,7 +45,7 @@ RAW_PATTERNS = OrderedDict(
             % OPTIONAL_BRACE_PATTERN,
         ),
         # footnotes
-        ("footnotemark", r"\\footnotemark%s" % OPTIONAL_BRACE_PATTERN),
+        ("footnotemark", r"\\footnotemark(?![a-zA-Z])%s" % OPTIONAL_BRACE_PATTERN),
         ("footnotetext", r"\\footnotetext%s\s*{" % OPTIONAL_BRACE_PATTERN),
         # URLs
         ("url", r"\\(?:url|path)\s*{"),
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index de263cd..4896568 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -81,7 +81,7 @@ RAW_PATTERNS = OrderedDict(
         ),
         (
             "pagebreak",
-            r"\\(?:pagebreak|filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)\b|\\linebreak(?:\[\d+\])?",
+            r"\\(?:pagebreak|filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)\b|\\linebreak(?![a-zA-Z])(?:\[\d+\])?",
         ),
         (
             "vskip",
@@ -119,14 +119,14 @@ RAW_PATTERNS = OrderedDict(
         (
             "margins",
             r"\\(?:rightmargin|leftmargin)\b|"
-            + r"\\(?:topmargin|oddsidemargin|evensidemargin|textwidth|textheight|skip|footskip|headheight|headsep|footnotesep|marginparsep|marginparwidth|parindent|itemindent|parskip|vfuzz|hfuzz|hoffset|voffset)"
+            + r"\\(?:topmargin|oddsidemargin|evensidemargin|textwidth|textheight|skip|footskip|headheight|headsep|footnotesep|marginparsep|marginparwidth|parindent|itemindent|parskip|vfuzz|hfuzz|hoffset|voffset)(?![a-zA-Z@])"
             + r"\s*(\=?\s*(?:%s))?" % (number_points_suffix),
         ),
         ("indent", r"\\indent\b"),
         (
             "lineskip",
             r"\\lineskip\s*%s" % (number_points_suffix)
-            + r"|(%s)?\\baselineskip(?:\s*%s)?" % (number_regex, number_points_suffix),
+            + r"|(%s)?\\baselineskip(?![a-zA-Z@])(?:\s*%s)?" % (number_regex, number_points_suffix),
         ),
         # width
         (
@@ -137,7 +137,7 @@ RAW_PATTERNS = OrderedDict(
         (
             "spacing",
             r"\\(?:"
-            r"quad|qquad|xspace|space|,|;|:|\!|"  # \quad, \qquad, \, \; \:
+            r"(?:quad|qquad|xspace|space)(?![a-zA-Z@])|,|;|:|\!|"  # \quad, \qquad, \, \; \:
             r"hspace\*?\s*{([^}]+)}|"  # \hspace{length}
             r"hskip\s*%s" % (number_points_suffix)  # \hskip 10pt
             + r"|linespread\s*\{[^}]*\}"  # Added \linespread{...}
@@ -203,14 +203,14 @@ RAW_PATTERNS = OrderedDict(
             r"centerline\b|"  # no args
             r"cline\s*{([^}]+)}|"  # {n-m}
             r"topsep\b|parsep\b|partopsep\b|"
-            r"labelsep\s*\{?([^\}]*)\}?|"
-            + r"(?:midrule|toprule|bottomrule)%s|"
+            r"labelsep(?![a-zA-Z@])\s*\{?([^\}]*)\}?|"
+            + r"(?:midrule|toprule|bottomrule)(?![a-zA-Z@])%s|"
             % (OPTIONAL_BRACE_PATTERN)  # optional [trim]
             + r"cmidrule\s*(?:\(([^)]+)\)\s*)?(?:\[([^\]]*)\]\s*)?{([^}]+)}|"  # optional (lr)[trim] and {n-m}
-            r"hdashline(?:\[[\d,\s]*\])?|"  # optional [length,space]
+            r"hdashline(?![a-zA-Z@])(?:\[[\d,\s]*\])?|"  # optional [length,space]
             r"cdashline\s*{([^}]+)}|"  # {n-m}
             r"specialrule\s*{([^}]*)}\s*{([^}]*)}\s*{([^}]*)}|"  # {height}{above}{below}
-            r"addlinespace(?:\[([^\]]*)\])?|"  # optional [length]
+            r"addlinespace(?![a-zA-Z@])(?:\[([^\]]*)\])?|"  # optional [length]
             r"rule\s*{[^}]*}\s*{[^}]*}|"  # \rule{width}{height}
             r"hrule\b|"
             r"morecmidrules\b|"  # no args
@@ -224,10 +224,10 @@ RAW_PATTERNS = OrderedDict(
         ),
         (
             "rulewidth",
-            r"\\(?:arrayrulewidth|heavyrulewidth|overfullrule)(?:\s*=?\s*%s(?:\w+)?)?"
+            r"\\(?:arrayrulewidth|heavyrulewidth|overfullrule)(?![a-zA-Z@])(?:\s*=?\s*%s(?:\w+)?)?"
             % number_regex,
         ),
-        ("paper", r"\\(?:paperwidth|paperheight)(?:\s*=\s*%s(?:\w+)?)?" % number_regex),
+        ("paper", r"\\(?:paperwidth|paperheight)(?![a-zA-Z@])(?:\s*=\s*%s(?:\w+)?)?" % number_regex),
         ("protect", r"\\protect\\[a-zA-Z]+(?:\s*(?:\[[^\]]*\]|\{[^}]*\})*)?"),
         (
             "counters",
@@ -260,7 +260,7 @@ RAW_PATTERNS = OrderedDict(
         ("@empty", r"\\@empty(?![a-zA-Z@])"),
         (
             "advance",
-            r"\\(?:advance|divide|multiply)(?:\\[a-zA-Z@*\d]+)?(?:\s+by)?(?:\s*-)?(?:\s*(?:\\)?[a-zA-Z@*\d]+)?",
+            r"\\(?:advance|divide|multiply)(?![a-zA-Z])(?:\\[a-zA-Z@*\d]+)?(?:\s+by)?(?:\s*-)?(?:\s*(?:\\)?[a-zA-Z@*\d]+)?",
         ),
         ("typeout", r"\\typeout\s*{"),
         # other...
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index e7262ed..a1c20a2 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -36,7 +36,7 @@ LET_CSNAME_COMMAND_PATTERN = re.compile(
     re.DOTALL,
 )
 
-EXPAND_PATTERN = re.compile(r"\\(?:expandafter|noexpand)(?:\w+)?(?![a-zA-Z])")
+EXPAND_PATTERN = re.compile(r"\\(?:expandafter|noexpand)(?![a-zA-Z])")
 START_CSNAME_PATTERN = re.compile(r"\\csname(?![a-zA-Z])")
 END_CSNAME_PATTERN = re.compile(r"\\endcsname(?![a-zA-Z])")
 
diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index 7607fbe..a78b2d5 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -65,7 +65,7 @@ PATTERNS = {
     "frac": re.compile(r"\\(?:frac|nicefrac|textfrac)\s*\{", re.DOTALL),
     "texorpdfstring": re.compile(r"\\texorpdfstring\s*\{", re.DOTALL),
     "color": re.compile(r"\\textcolor\s*(\[\w+\])?\s*{"),
-    "columns": re.compile(r"\\(?:onecolumn\b|twocolumn\s*\[?)"),
+    "columns": re.compile(r"\\(?:onecolumn\b|twocolumn(?![a-zA-Z])\s*\[?)"),
     "subfloat": re.compile(r"\\subfloat\s*\["),
     "roman_numerals": re.compile(r"\\romannumeral\s+(\d+)"),
 }
-- 
2.43.0


From 50d45a7035e4fe00f87947c2f7e108618d5d71b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 041/132] fix: a declaration or style command inside of math or
 verbatim text does not end the declaration around it

---
 .../parser/handlers/legacy_formatting.py      | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index 113d396..d35fd64 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -6,7 +6,7 @@ from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.handlers.environment import (
     find_pattern_while_skipping_nested_envs,
 )
-from latex2json.utils.tex_utils import extract_nested_content
+from latex2json.utils.tex_utils import extract_nested_content, mask_verbatim
 
 
 # Font style mappings
@@ -90,6 +90,19 @@ LEGACY_FORMAT_MAPPING: Dict[str, str] = {**LEGACY_FONT_MAPPING, **LEGACY_SIZE_MA
 # negative lookbehind that ensures the preceding character is not a backslash
 OPENING_BRACE_PATTERN = re.compile(r"(?<!\\){")
 
+# math, where a declaration does not end the one around the math
+MATH_PATTERN = re.compile(
+    r"(?P<math>(\$\$?)(?:[^$\\]|\\.)+?\2|\\\(.*?\\\)|\\\[.*?\\\])|\\.", re.DOTALL
+)
+
+
+def mask_math_and_verbatim(text: str) -> str:
+    return MATH_PATTERN.sub(
+        lambda m: "." * len(m.group(0)) if m.group("math") else m.group(0),
+        mask_verbatim(text),
+    )
+
+
 
 class LegacyFormattingHandler(TokenHandler):
     def can_handle(self, content: str) -> bool:
@@ -158,7 +171,8 @@ class LegacyFormattingHandler(TokenHandler):
                     end_pos = content_len
 
                     # if we find a similar pattern inside, we need to handle everything and skip nested environments
-                    if re.search(pattern.pattern, next_content):
+                    masked = mask_math_and_verbatim(next_content)
+                    if re.search(pattern.pattern, masked):
                         # find the next pattern or opening brace
                         pattern_or_open_brace = re.compile(
                             pattern.pattern + "|" + OPENING_BRACE_PATTERN.pattern
@@ -168,17 +182,17 @@ class LegacyFormattingHandler(TokenHandler):
                         while pos < len(next_content):
                             # make sure to skip nested environments
                             out_pos = find_pattern_while_skipping_nested_envs(
-                                next_content, pattern_or_open_brace, pos
+                                masked, pattern_or_open_brace, pos
                             )
 
                             if out_pos == -1 or out_pos == len(next_content):
                                 end_pos = len(next_content)
                                 break
 
-                            if next_content[out_pos] == "{":
+                            if masked[out_pos] == "{":
                                 # Skip nested content
                                 _, skip_len = extract_nested_content(
-                                    next_content[out_pos:]
+                                    masked[out_pos:]
                                 )
                                 pos = out_pos + (skip_len or 1)
                             else:
-- 
2.43.0


From 7e429b7f367ec3dd8c7998cf3aaf4d66b7571585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 042/132] fix: a line break in math is not the start of a
 command

---
 latex2json/parser/handlers/equation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index 294a87a..3cf0206 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -74,7 +74,8 @@ class EquationHandler(TokenHandler):
         """Remove LaTeX formatting commands from equation."""
         backslash_pos = equation.find("\\")
         while backslash_pos >= 0:
-            incr = 1
+            # skip both backslashes of a line break
+            incr = 2 if equation.startswith("\\\\", backslash_pos) else 1
             x, end_pos = self.formatter.handle(
                 equation[backslash_pos:], exclude_patterns=["spacing", "backslash"]
             )
-- 
2.43.0


From f04fe06df5e331622f5ede9a3fdc0a0c26b270ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 043/132] fix: parameters of an inner def, one digit per
 parameter number

---
 latex2json/parser/handlers/new_definition.py | 2 ++
 latex2json/utils/tex_utils.py                | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index a1c20a2..463adfd 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -552,6 +552,8 @@ class NewDefinitionHandler(TokenHandler):
 
         # Get parameter pattern (now properly separated)
         param_pattern = match.group(3).strip() if match.group(3) else ""
+        # in a definition inside of another macro, the own parameters are ##1 etc
+        param_pattern = re.sub(r"#+(\d)", r"#\1", param_pattern)
 
         parts, param_count = self._extract_def_pattern_parts(
             rf"{cmd_name}{param_pattern}"
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index b80bbcc..39e22ab 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -498,7 +498,7 @@ def extract_args(content: str, req_args=0, opt_args=0):
 
 NO_ESC_HASH_NUMBER_PATTERN = re.compile(r"(?<!\\)(#+)(\d+)")
 
-HASH_NUMBER_PATTERN = re.compile(r"(\\#)|(#+)(\d+)")
+HASH_NUMBER_PATTERN = re.compile(r"(\\#)|(#+)(\d)")
 
 
 def check_string_has_hash_number(text: str) -> bool:
-- 
2.43.0


From 265e1ae68e4b2be36bfbda2132e12724dabfe6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 044/132] fix: definitions made by a macro with arguments are
 known while preprocessing

---
 latex2json/parser/tex_preprocessor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 90acd47..67effc3 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -31,6 +31,11 @@ from latex2json.parser.handlers.command_manager import CommandManager
 
 ADD_TO_PATTERN = re.compile(r"\\addto\s*(?:{?\\[^}\s]+}?)\s*\{")  # e.g. \addto\cmd{...}
 
+# a definition inside of the definition of a macro
+INNER_DEFINITION_PATTERN = re.compile(
+    r"\\(?:[egx]?def|let|(?:re)?newcommand|providecommand|DeclareRobustCommand)(?![a-zA-Z@])"
+)
+
 ALL_VERBATIM_PATTERNS = list(VERBATIM_PATTERNS.values())
 ALL_VERBATIM_PATTERNS.append(
     re.compile(r"\\begin\s*\{algorithm\}(.*?)\\end\s*\{algorithm\}", re.DOTALL)
@@ -279,6 +284,12 @@ class LatexPreprocessor:
                 if is_redefinition and token.get("is_provide"):
                     current_pos += end_pos
                     continue
+                if INNER_DEFINITION_PATTERN.search(token.get("content", "")):
+                    # a macro that defines others: expand it here, so that they are known
+                    deferred.discard(name)
+                    self._process_new_definition_token(token)
+                    current_pos += end_pos
+                    continue
                 if (
                     token.get("num_args", 0) > 0
                     or check_string_has_hash_number(token.get("content", ""))
-- 
2.43.0


From 55793c70b542358060ee50030d44a17a08ea9d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 045/132] fix: a first table cell in braces is not the column
 specification

---
 latex2json/parser/handlers/tabular.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index a79a64d..00d3e04 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -413,9 +413,16 @@ class TabularHandler(BaseEnvironmentHandler):
             "environment": env_type,  # Store the specific environment type
         }
 
+        # Some environments have a width before the column spec; further braces belong to
+        # the first cell
+        if env_type.rstrip("*") in ("tabularx", "tabulary") or env_type == "tabular*":
+            _, end_pos = extract_nested_content(inner_content)
+            _, opt_pos = extract_nested_content(inner_content[end_pos:], "[", "]")
+            inner_content = inner_content[end_pos + opt_pos :]
+
         # Extract column spec using nested content extraction
         blocks, end_pos = extract_nested_content_sequence_blocks(
-            inner_content, max_blocks=2
+            inner_content, max_blocks=1
         )
 
         if blocks:
-- 
2.43.0


From c71f8fced6137dacd3fd8623812be72958111564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:30 +0000
Subject: [PATCH 046/132] fix: keep a control space at the end of a line or
 group

---
 latex2json/parser/handlers/legacy_formatting.py |  8 +++++++-
 latex2json/utils/tex_utils.py                   | 10 +++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index d35fd64..bab5be5 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -6,7 +6,11 @@ from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.handlers.environment import (
     find_pattern_while_skipping_nested_envs,
 )
-from latex2json.utils.tex_utils import extract_nested_content, mask_verbatim
+from latex2json.utils.tex_utils import (
+    extract_nested_content,
+    is_escaped,
+    mask_verbatim,
+)
 
 
 # Font style mappings
@@ -149,6 +153,8 @@ class LegacyFormattingHandler(TokenHandler):
                         # unclosed brace, ignore the command
                         return "", next_pos
                     content_to_format = text.strip()
+                    if is_escaped(len(content_to_format), content_to_format):
+                        content_to_format += " "  # keep a control space
                     total_pos = next_pos + end_pos
                     formatted_text = "\\%s{%s}" % (modern_command, content_to_format)
                     return formatted_text, total_pos
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 39e22ab..5cc934b 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -360,6 +360,14 @@ COMMENT_PATTERN = re.compile(
 )
 
 
+def _rstrip_line(line: str) -> str:
+    r"""rstrip, but keep a control space i.e. backslash + space"""
+    stripped = line.rstrip()
+    if len(stripped) < len(line) and is_escaped(len(stripped), line):
+        return stripped + " "
+    return stripped
+
+
 def strip_latex_comments(text: str) -> str:
     r"""
     Remove all LaTeX comments while preserving escaped \% characters.
@@ -378,7 +386,7 @@ def strip_latex_comments(text: str) -> str:
     text = COMMENT_PATTERN.sub(
         lambda m: "" if m.group("comment") is not None else m.group(0), text
     )
-    return "\n".join(line.rstrip() for line in text.splitlines())
+    return "\n".join(_rstrip_line(line) for line in text.splitlines())
 
 
 def flatten_all_to_string(tokens: List[Dict | str | List] | str) -> str:
-- 
2.43.0


From 1d251e939592a23662d9336c6a4c8df5f4436c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 047/132] fix: a delimiter after the name of a def macro is not
 part of its name

---
 latex2json/parser/handlers/new_definition.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 463adfd..b3559a3 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -507,6 +507,11 @@ class NewDefinitionHandler(TokenHandler):
                 full_match = full_pattern.match(search_text)
                 if full_match:
                     token, end_pos = handler(search_text, full_match)
+                    if token and not inner_csnames:
+                        # what follows the name is a delimiter e.g. \def\foo(#1){...}
+                        name_match = re.match(r"[a-zA-Z@]+", token["name"])
+                        if name_match:
+                            token["name"] = name_match.group(0)
                     if token and inner_csnames:  # allow csname regex compile
                         first_inner = inner_csnames[0]
                         # Partition the usage_pattern to remove up to and including cmd_str
-- 
2.43.0


From 01edcaff3c445fcc11cb5214111d0653a07b631f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 048/132] fix: delimited arguments holding braces

---
 latex2json/parser/handlers/new_definition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index b3559a3..2fdc5fd 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -600,7 +600,8 @@ class NewDefinitionHandler(TokenHandler):
             # e.g. \def\foo#1{bar #1} \foo{xxx} will match 'xxx' arg, \foo xaaa will match 'x' arg
             # Update regex to handle escaped braces and normal braces
             args_part_pattern = (
-                r"\s*(?:\{(%s)\}|(\\[a-zA-Z@]+|[^\}]+?))" % NESTED_BRACES_PATTERN
+                r"\s*(?:\{(%s)\}|(\\[a-zA-Z@]+|(?:[^{}\\]|\\.|\{%s\})+?))"
+                % (NESTED_BRACES_PATTERN, NESTED_BRACES_PATTERN)
             )
 
             current_pos = 0
-- 
2.43.0


From 88bd15f3e6610c90f77ef66643a35035a13de53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 049/132] fix: expand an edef where it is made, also when it
 uses macros with arguments

---
 latex2json/parser/tex_preprocessor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 67effc3..f189afd 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -31,6 +31,8 @@ from latex2json.parser.handlers.command_manager import CommandManager
 
 ADD_TO_PATTERN = re.compile(r"\\addto\s*(?:{?\\[^}\s]+}?)\s*\{")  # e.g. \addto\cmd{...}
 
+COMMAND_NAME_PATTERN = re.compile(r"\\([a-zA-Z@]+)")
+
 # a definition inside of the definition of a macro
 INNER_DEFINITION_PATTERN = re.compile(
     r"\\(?:[egx]?def|let|(?:re)?newcommand|providecommand|DeclareRobustCommand)(?![a-zA-Z@])"
@@ -295,6 +297,13 @@ class LatexPreprocessor:
                     or check_string_has_hash_number(token.get("content", ""))
                     # alias of such a macro
                     or (token["type"] == "let" and token["content"][1:] in deferred)
+                    # or its expansion
+                    or (
+                        token.get("is_edef")
+                        and deferred.intersection(
+                            COMMAND_NAME_PATTERN.findall(token["content"])
+                        )
+                    )
                 ):
                     deferred.add(name)
                     self.command_manager.unregister_command(name)
-- 
2.43.0


From 4061af9e432ee9f7427a79cacb6c2b7dc107f454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 050/132] fix: headings with a short title

---
 latex2json/parser/handlers/content_command.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 49278b3..63dba28 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -19,14 +19,17 @@ PARAGRAPH_LEVELS = {
 
 OPTIONAL_BRACE_PATTERN = r"(?:\[([^\]]*)\])?"
 
+# short title of a heading e.g. \section[short title]{title}
+SHORT_TITLE_PATTERN = r"(?:\[(?:[^\[\]{}]|\[[^\[\]{}]*\]|\{(?:[^{}]|\{[^{}]*\})*\})*\]\s*)?"
+
 RAW_PATTERNS = OrderedDict(
     [
         # 1. Commands that need nested brace handling (simplified patterns)
         ("abstract", r"\\abstract\s*{"),
-        ("section", r"\\(?:(?:sub)*section\*?)\s*{"),
-        ("part", r"\\part\*?\s*{"),
-        ("chapter", r"\\chapter\*?\s*{"),
-        ("paragraph", r"\\(?:(?:sub)*paragraph\*?)\s*{"),
+        ("section", r"\\(?:(?:sub)*section\*?)\s*%s{" % SHORT_TITLE_PATTERN),
+        ("part", r"\\part\*?\s*%s{" % SHORT_TITLE_PATTERN),
+        ("chapter", r"\\chapter\*?\s*%s{" % SHORT_TITLE_PATTERN),
+        ("paragraph", r"\\(?:(?:sub)*paragraph\*?)\s*%s{" % SHORT_TITLE_PATTERN),
         ("footnote", r"\\footnote\*?%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("caption", r"\\(caption|subcaption)\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("captionof", r"\\captionof\*?\s*{([^}]*?)}\s*{"),
@@ -140,17 +143,18 @@ class ContentCommandHandler(TokenHandler):
         """Create appropriate token based on command type"""
 
         content = content.strip()
+        command = match.group(0).split("[")[0]  # without the short title
 
         if matched_type == "paragraph":
-            level = match.group(0).count("sub") + PARAGRAPH_LEVELS["paragraph"]
+            level = command.count("sub") + PARAGRAPH_LEVELS["paragraph"]
             return {
                 "type": "paragraph",
                 "title": content,
                 "level": level,
             }
         elif matched_type in ["section", "chapter", "part"]:
-            level = match.group(0).count("sub") + SECTION_LEVELS[matched_type]
-            numbered = (matched_type + "*") not in match.group(0)
+            level = command.count("sub") + SECTION_LEVELS[matched_type]
+            numbered = (matched_type + "*") not in command
             return {
                 "type": "section",
                 "title": content,
-- 
2.43.0


From 34bc10c47d7af7907a1eea6fb7b2b0b084d92f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 051/132] fix: arguments of subtable and minipage do not appear
 as text

---
 latex2json/parser/handlers/environment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index fcd0320..1c9352b 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -96,7 +96,7 @@ ENV_TYPES = {
 # Add to your environment configurations
 ENV_ARGS = {
     "thebibliography": {"mandatory": 1},  # Expects 1 mandatory argument
-    "minipage": {"mandatory": 1},  # Expects 1 mandatory argument
+    "minipage": {"optional": 3, "mandatory": 1},  # [pos][height][inner pos]{width}
     "list": {"mandatory": 2},  # usually used as \list{label}{spacing}
     "adjustwidth": {"mandatory": 2},  # usually used as \adjustwidth{left}{right}
     "spacing": {"mandatory": 1},  # usually used as \spacing{1em}
@@ -105,6 +105,7 @@ ENV_ARGS = {
     "table": {"optional": 1},  # Expects 1 optional argument for placement
     "figure": {"optional": 1},  # Expects 1 optional argument for placement
     "subfigure": {"optional": 1, "mandatory": 1},
+    "subtable": {"optional": 1, "mandatory": 1},
     "wrapfigure": {"optional": 1, "mandatory": 2},
     "adjustbox": {"mandatory": 1},  # Expects 1 mandatory argument for width
     # ... other environments with known argument patterns
-- 
2.43.0


From 03d16fd5581a43cd4f5d68bdd3b10b441f96dbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 052/132] fix: end position of arguments after optional ones

---
 latex2json/utils/tex_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 5cc934b..e7ee5d0 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -495,11 +495,10 @@ def extract_args(content: str, req_args=0, opt_args=0):
 
     req = []
     if req_args > 0:
-        req, end_pos = extract_nested_content_sequence_blocks(
+        req, req_end_pos = extract_nested_content_sequence_blocks(
             content, "{", "}", max_blocks=req_args
         )
-        if end_pos > 0:
-            content = content[end_pos:]
+        end_pos += req_end_pos
 
     return {"req": req, "opt": opt}, end_pos
 
-- 
2.43.0


From fb610b9c9567d80e5f386c2880216247625c8843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:34 +0000
Subject: [PATCH 053/132] fix: item titles with deeply nested braces

---
 latex2json/parser/handlers/item.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/item.py b/latex2json/parser/handlers/item.py
index a3f3201..af8f442 100644
--- a/latex2json/parser/handlers/item.py
+++ b/latex2json/parser/handlers/item.py
@@ -7,8 +7,12 @@ from latex2json.parser.handlers.environment import (
 from latex2json.utils.tex_utils import mask_verbatim
 
 # title of an item, whose brackets and braces may nest e.g. [\cite[p. 1]{key}] or [{[1]}]
+BRACES_PATTERN = r"(?:\\.|[^{}\\])*"
+for _ in range(6):
+    BRACES_PATTERN = r"(?:\\.|[^{}\\]|\{%s\})*" % BRACES_PATTERN
 ITEM_TITLE_PATTERN = (
-    r"\[((?:\\.|[^\[\]{}\\]|\[[^\[\]]*\]|\{(?:\\.|[^{}\\]|\{[^{}]*\})*\})*)\]"
+    r"\[((?:\\.|[^\[\]{}\\]|\[(?:\\.|[^\[\]{}\\]|\{%s\})*\]|\{%s\})*)\]"
+    % (BRACES_PATTERN, BRACES_PATTERN)
 )
 
 # pattern to match \item up to the next \item or end of string
-- 
2.43.0


From 992746591906341f5f1c0c0a1cbb8d3432950bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:04 +0000
Subject: [PATCH 054/132] fix: an item starting with a digit

---
 latex2json/parser/handlers/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/item.py b/latex2json/parser/handlers/item.py
index af8f442..e619089 100644
--- a/latex2json/parser/handlers/item.py
+++ b/latex2json/parser/handlers/item.py
@@ -17,7 +17,7 @@ ITEM_TITLE_PATTERN = (
 
 # pattern to match \item up to the next \item or end of string
 ITEM_PATTERN = re.compile(
-    r"\\item\b\s*(?:%s)?\s*([\s\S]*?)(?=\\item\b|$)" % ITEM_TITLE_PATTERN,
+    r"\\item(?![a-zA-Z@])\s*(?:%s)?\s*([\s\S]*?)(?=\\item(?![a-zA-Z@])|$)" % ITEM_TITLE_PATTERN,
     re.DOTALL,
 )
 
-- 
2.43.0


From 879a1b0a2400cc8f073cb157d60229b7a1cf7c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 055/132] fix: boxes keep their content and lose all of their
 options, and are not joined to the word before

---
 latex2json/parser/packages/boxes.py | 38 ++++++++++++++++++-----------
 latex2json/parser/tex_parser.py     | 27 +++++++++++++++-----
 2 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index 247dc86..befe1ad 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -9,7 +9,6 @@ from latex2json.utils.tex_utils import (
     extract_nested_content,
     extract_delimited_args,
     strip_latex_newlines,
-    flatten_all_to_string,
 )
 
 BOX_DELIMITERS = {
@@ -18,19 +17,19 @@ BOX_DELIMITERS = {
     "makebox": "[[{",  # \makebox[width]{text}
     "framebox": "[[{",  # \framebox[width][pos]{text}
     "raisebox": "{[[{",  # \raisebox{distance}[extend-above][extend-below]{text}
-    "colorbox": "{{",  # \colorbox{color}{text}
-    "fcolorbox": "{{{",  # \fcolorbox{border}{bg}{text}
-    "scalebox": "{{",  # \scalebox{scale}{text}
+    "colorbox": "[{{",  # \colorbox[model]{color}{text}
+    "fcolorbox": "[{[{{",  # \fcolorbox[model]{border}[model]{bg}{text}
+    "scalebox": "{[{",  # \scalebox{scale}[v-scale]{text}
     "mbox": "{",  # \mbox{text}
     r"hbox\s+to\s*[^{]+": "{",  # \hbox to \hsize{text}
-    "pbox": "{{",  # \pbox{x}{text}
+    "pbox": "[[[{{",  # \pbox[pos][height][inner-pos]{x}{text}
     "resizebox": "{{{",  # \resizebox{width}{height}{text}
-    "rotatebox": "{{",  # \rotatebox{angle}{text}
+    "rotatebox": "[{{",  # \rotatebox[options]{angle}{text}
     "adjustbox": "{{",  # \adjustbox{max width=\textwidth}{text}
 }
 
 BOX_PATTERN = re.compile(
-    r"\\(%s)\s*[\[\{]" % "|".join(BOX_DELIMITERS.keys()), re.VERBOSE | re.DOTALL
+    r"\\(%s)\*?\s*[\[\{]" % "|".join(BOX_DELIMITERS.keys()), re.VERBOSE | re.DOTALL
 )
 
 # Add fancyhead pattern
@@ -66,6 +65,17 @@ def parse_varname_from_brace_or_backslash(var_name: str) -> Tuple[Optional[str],
     return var_name
 
 
+def strip_text_newlines(content: Any) -> Any:
+    """Make the text of processed content into one line, other tokens are kept"""
+    if isinstance(content, str):
+        return strip_latex_newlines(content)
+    elif isinstance(content, list):
+        return [strip_text_newlines(c) for c in content]
+    elif isinstance(content, dict) and content.get("type") in ("text", "group"):
+        return {**content, "content": strip_text_newlines(content["content"])}
+    return content
+
+
 class BoxHandler(TokenHandler):
     def __init__(self, process_content_fn: Optional[Callable[[str], Any]] = None):
         super().__init__(process_content_fn)
@@ -126,9 +136,7 @@ class BoxHandler(TokenHandler):
 
         if one_liner:
             # make everything into one line
-            extracted_content = strip_latex_newlines(
-                flatten_all_to_string(extracted_content)
-            )
+            extracted_content = strip_text_newlines(extracted_content)
 
         if isinstance(extracted_content, str):
             return {"type": "text", "content": extracted_content}, end_pos
@@ -153,11 +161,13 @@ class BoxHandler(TokenHandler):
             return None, match.end()
 
         elif command in ("sbox", "savebox"):
-            # Extract the box content
+            # Extract the box content, after \savebox's optional [width][pos]
             start_pos = match.end()
-            extracted_args, end_pos = extract_delimited_args(content[start_pos:], "{")
-            if extracted_args:
-                box_content = extracted_args[0]
+            extracted_args, end_pos = extract_delimited_args(
+                content[start_pos:], "[[{"
+            )
+            if len(extracted_args) == 3:
+                box_content = extracted_args[-1]
                 if self.process_content_fn:
                     box_content = self.process_content_fn(box_content)
                 # Store content in a consistent format
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 7f6e285..4c434d8 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -39,7 +39,7 @@ from latex2json.parser.patterns import (
     PATTERNS,
     DELIM_PATTERN,
 )
-from latex2json.parser.packages import get_all_custom_handlers
+from latex2json.parser.packages import BoxHandler, get_all_custom_handlers
 
 UNKNOWN_COMMAND_PATTERN = re.compile(r"(\\[@a-zA-Z\*]+(?:\s*{)?)")
 
@@ -353,13 +353,18 @@ class LatexParser:
         return {"type": "bibliography", "content": non_duplicate_tokens}
 
     def _process_token(
-        self, token: str | Dict | List[Dict], tokens: List[Dict], is_env_type=False
+        self,
+        token: str | Dict | List[Dict],
+        tokens: List[Dict],
+        is_env_type=False,
+        add_space=False,
     ) -> None:
         if isinstance(token, str):
             token = {"type": "text", "content": token}
         elif isinstance(token, list):
             for t in token:
-                self._process_token(t, tokens)
+                self._process_token(t, tokens, add_space=add_space)
+                add_space = False
             return
         else:
             if token["type"] == "bibliography":
@@ -427,9 +432,11 @@ class LatexParser:
                 if "title" in token and isinstance(token["title"], str):
                     token["title"] = self.parse(token["title"])
 
-        self.add_token(token, tokens)
+        self.add_token(token, tokens, add_space)
 
-    def _check_handlers(self, content: str, tokens: List[Dict]) -> Tuple[bool, int]:
+    def _check_handlers(
+        self, content: str, tokens: List[Dict], preceded_by_space: bool = False
+    ) -> Tuple[bool, int]:
         """Process content through available handlers.
 
         Returns:
@@ -444,6 +451,9 @@ class LatexParser:
                         token,
                         tokens,
                         is_env_type=isinstance(handler, BaseEnvironmentHandler),
+                        # boxes are text, so keep them apart from the text before
+                        add_space=preceded_by_space
+                        and isinstance(handler, BoxHandler),
                     )
                 return True, end_pos
         return False, 0
@@ -614,7 +624,12 @@ class LatexParser:
                     continue
 
             # try each handler
-            matched, end_pos = self._check_handlers(content[current_pos:], tokens)
+            matched, end_pos = self._check_handlers(
+                content[current_pos:],
+                tokens,
+                preceded_by_space=current_pos > 0
+                and content[current_pos - 1].isspace(),
+            )
             current_pos += end_pos
             if matched:
                 continue
-- 
2.43.0


From ffdf6a3250a4a62da4b48c22083737e976e8c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 056/132] fix: tables with starred or named line breaks,
 longtable heads, multirow forms

---
 latex2json/parser/handlers/formatting.py |  5 ++--
 latex2json/parser/handlers/tabular.py    | 29 ++++++++++++++++++++++++
 latex2json/parser/patterns.py            |  2 +-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 4896568..d9d2207 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -19,7 +19,7 @@ import decimal
 COLOR_CELLS_PATTERN = re.compile(
     r"""
     \\(?:
-        (?:row|column|cell)color\*?\s*%s\s*{[^}]*}   # \rowcolor, \columncolor, \cellcolor
+        (?:row|column|cell)color\*?\s*%s\s*{[^}]*}(?:\[[^\]]*\]){0,2}   # \rowcolor, \columncolor, \cellcolor with their overhangs
     )
     """
     % OPTIONAL_BRACE_PATTERN,
@@ -219,7 +219,8 @@ RAW_PATTERNS = OrderedDict(
             r"tabcolsep\b|"
             r"colrule\b|"
             r"noalign\b|"
-            r"endfirsthead\b"
+            r"vline(?![a-zA-Z@])|"
+            r"end(?:firsthead|head|foot|lastfoot)(?![a-zA-Z@])"
             r")",
         ),
         (
diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 00d3e04..6618ab4 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -25,6 +25,12 @@ MULTIROW_PATTERN = re.compile(
     r"\\multirow\s*(?:\[[^\]]*\])?\s*{\s*-?(\d+)\s*}\s*(?:\[[^\]]*\])?\s*{", re.DOTALL
 )
 
+MULTIROW_START_PATTERN = re.compile(
+    r"\\multirow\s*(?:\[[^\]]*\])?\s*{\s*-?\d+\s*}\s*(?:\[[^\]]*\])?\s*(?=[{*])", re.DOTALL
+)
+# optional vertical move, up to the brace of the text
+MULTIROW_VMOVE_PATTERN = re.compile(r"\s*(?:\[[^\]]*\])?\s*{", re.DOTALL)
+
 
 MAKECELL_SHORTSTACK_PATTERN = re.compile(
     r"\\(?:makecell|shortstack)(?:\s*\[[^\]]*\])?\s*{", re.DOTALL
@@ -114,6 +120,28 @@ def split_cells(row: str) -> List[str]:
     return split_latex_content(row, "&", is_row_split=False)
 
 
+def normalize_multirows(content: str) -> str:
+    r"""Bring e.g. \multirow{2}*{text} and \multirow{2}{*}[vmove]{text} to the form
+    \multirow{2}{*}{text}"""
+    pos = 0
+    while True:
+        match = MULTIROW_START_PATTERN.search(content, pos)
+        if not match:
+            return content
+        pos = match.end()
+        if content[pos] == "*":
+            width, end_pos = "*", 1
+        else:
+            width, end_pos = extract_nested_content(content[pos:])
+        if width is None:
+            continue
+        vmove = MULTIROW_VMOVE_PATTERN.match(content, pos + end_pos)
+        if vmove:
+            width = "{%s}" % width
+            content = content[:pos] + width + content[vmove.end() - 1 :]
+            pos += len(width)
+
+
 def unwrap_makecells(cell: str) -> str:
     r"""Replace each \makecell{...} or \shortstack{...} of a cell with what is inside"""
     pos = 0
@@ -433,6 +461,7 @@ class TabularHandler(BaseEnvironmentHandler):
             inner_content = inner_content[end_pos:]
 
             # First extract table structures
+            inner_content = normalize_multirows(inner_content)
             inner_content, table_structures = extract_table_structures(inner_content)
 
             # Process content with structures extracted
diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 7c47f7d..868ce44 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -48,7 +48,7 @@ RAW_PATTERNS = OrderedDict(
         # Line break with optional spacing specification
         (
             "break_spacing",
-            r"\\\\(?:\s*\[([^]]*)\])?",
+            r"(?:\\\\\*?|\\tabularnewline(?![a-zA-Z@]))(?:\s*\[([^]]*)\])?",
         ),  # Added \s* to handle optional whitespace
         (
             "line_continuation",
-- 
2.43.0


From 4a435a1c00e3c68b4fc751ee538c2b345ea33f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:52 +0000
Subject: [PATCH 057/132] fix: number and nest the content of table cells

---
 latex2json/structure/builder.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index b89a6aa..8d302a8 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -341,6 +341,18 @@ class TokenBuilder:
             elif token["type"] == "figure":
                 self._update_figure_env_numbering(token)
 
+    def _organize_cell(self, cell, in_appendix=False, list_depth=0):
+        """Organize the content of a table cell, that is numbered like any other content"""
+        if isinstance(cell, list):
+            return self._recursive_organize(cell, in_appendix, list_depth)
+        if isinstance(cell, dict):
+            if "type" in cell:
+                return self._recursive_organize([cell], in_appendix, list_depth)[0]
+            cell["content"] = self._organize_cell(
+                cell.get("content"), in_appendix, list_depth
+            )
+        return cell
+
     def _recursive_organize(self, tokens, in_appendix=False, list_depth=0):
         organized = []
         section_stack = []
@@ -390,6 +402,10 @@ class TokenBuilder:
                         in_appendix=in_appendix,
                         list_depth=list_depth + 1,
                     )
+            elif token["type"] == "tabular":
+                for row in token.get("content") or []:
+                    for i, cell in enumerate(row):
+                        row[i] = self._organize_cell(cell, in_appendix, list_depth)
             # Handle other nested content
             elif isinstance(token.get("content"), list):
                 token["content"] = self._recursive_organize(
-- 
2.43.0


From 4d5fc5c68f4bdca7bd291d9b59cc4c9c95dcd9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 058/132] fix: groups, boxes and nested tables in table cells
 keep escaped characters and their own spans

---
 latex2json/parser/handlers/tabular.py | 74 ++++++++++++++++-----------
 latex2json/parser/tex_parser.py       | 28 ++++++++--
 2 files changed, 69 insertions(+), 33 deletions(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 6618ab4..70684a7 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -8,6 +8,7 @@ from latex2json.utils.tex_utils import (
     extract_nested_content_sequence_blocks,
     find_matching_env_block,
     is_escaped as is_escaped_char,
+    mask_verbatim,
 )
 
 
@@ -57,30 +58,31 @@ def split_latex_content(
     current_part = []
     nesting_level = 0
     i = 0
+    masked = mask_verbatim(content)
 
     while i < len(content):
         # Check for escaped delimiter
         is_escaped = False
-        if content[i : i + len(delimiter)] == delimiter:
+        if masked[i : i + len(delimiter)] == delimiter:
             # Count backslashes before delimiter
             backslash_count = 0
             pos = i - 1
-            while pos >= 0 and content[pos] == "\\":
+            while pos >= 0 and masked[pos] == "\\":
                 backslash_count += 1
                 pos -= 1
             # If odd number of backslashes, the delimiter is escaped
             is_escaped = (backslash_count % 2) == 1
 
-        if content[i] in "{}" and is_escaped_char(i, content):
+        if masked[i] in "{}" and is_escaped_char(i, masked):
             current_part.append(content[i])
-        elif content[i] == "{":
+        elif masked[i] == "{":
             nesting_level += 1
             current_part.append(content[i])
-        elif content[i] == "}":
+        elif masked[i] == "}":
             nesting_level -= 1
             current_part.append(content[i])
         elif (
-            content[i : i + len(delimiter)] == delimiter
+            masked[i : i + len(delimiter)] == delimiter
             and nesting_level == 0
             and not is_escaped
         ):
@@ -142,11 +144,45 @@ def normalize_multirows(content: str) -> str:
             pos += len(width)
 
 
+def find_nested_tabular_end(content: str, pos: int) -> int:
+    """If pos is inside of a nested tabular, return where that tabular ends (otherwise -1)"""
+    start_pos = 0
+    while True:
+        match = TABULAR_PATTERN.search(content, start_pos)
+        if not match or match.start() > pos:
+            return -1
+        if match.group(1):
+            env_name = match.group(0).split("{")[1].rstrip("}")
+            _, end_pos, _ = find_matching_env_block(content, env_name, match.start())
+        else:
+            _, end_pos, _ = extract_nested_content_pattern(
+                content[match.start() :], r"\\tabular(?![a-zA-Z@])", r"\\endtabular"
+            )
+            end_pos += match.start()
+        if end_pos > pos:
+            return end_pos
+        start_pos = max(end_pos, match.end())
+
+
+def search_outside_nested_tabulars(
+    pattern: re.Pattern, content: str, pos: int = 0
+) -> Optional[re.Match]:
+    """Like pattern.search, but leaves nested tabulars to themselves"""
+    while True:
+        match = pattern.search(content, pos)
+        if not match:
+            return None
+        nested_end_pos = find_nested_tabular_end(content, match.start())
+        if nested_end_pos <= 0:
+            return match
+        pos = nested_end_pos
+
+
 def unwrap_makecells(cell: str) -> str:
     r"""Replace each \makecell{...} or \shortstack{...} of a cell with what is inside"""
     pos = 0
     while True:
-        match = MAKECELL_SHORTSTACK_PATTERN.search(cell, pos)
+        match = search_outside_nested_tabulars(MAKECELL_SHORTSTACK_PATTERN, cell, pos)
         if not match:
             return cell
         inner, end_pos = extract_nested_content(cell[match.end() - 1 :])
@@ -160,7 +196,7 @@ def unwrap_makecells(cell: str) -> str:
 
 def unwrap_span(content: str, pattern: re.Pattern) -> Tuple[str, str, int]:
     r"""Split e.g. \multirow{2}{*}{content} into '\multirow{2}{*}{', content and the span"""
-    match = pattern.search(content)
+    match = search_outside_nested_tabulars(pattern, content)
     if match:
         start_pos = match.end() - 1
         blocks, end_pos = extract_nested_content_sequence_blocks(
@@ -234,26 +270,6 @@ def parse_tabular(latex_table: str, cell_parser_fn=None) -> List[List[Dict]]:
     return parsed_rows
 
 
-def find_nested_tabular_end(content: str, pos: int) -> int:
-    """If pos is inside of a nested tabular, return where that tabular ends (otherwise -1)"""
-    start_pos = 0
-    while True:
-        match = TABULAR_PATTERN.search(content, start_pos)
-        if not match or match.start() > pos:
-            return -1
-        if match.group(1):
-            env_name = match.group(0).split("{")[1].rstrip("}")
-            _, end_pos, _ = find_matching_env_block(content, env_name, match.start())
-        else:
-            _, end_pos, _ = extract_nested_content_pattern(
-                content[match.start() :], r"\\tabular", r"\\endtabular"
-            )
-            end_pos += match.start()
-        if end_pos > pos:
-            return end_pos
-        start_pos = max(end_pos, match.end())
-
-
 def extract_table_structures(content: str) -> Tuple[str, Dict[str, Dict]]:
     """Extract multicolumn, multirow and makecell structures and replace with references"""
     reference_map = {}
@@ -423,7 +439,7 @@ class TabularHandler(BaseEnvironmentHandler):
             )
         else:
             start_pos, end_pos, inner_content = extract_nested_content_pattern(
-                content, r"\\tabular", r"\\endtabular"
+                content, r"\\tabular(?![a-zA-Z@])", r"\\endtabular"
             )
         if start_pos == -1:
             return None, match.end()
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 4c434d8..2bbcb4b 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -435,10 +435,18 @@ class LatexParser:
         self.add_token(token, tokens, add_space)
 
     def _check_handlers(
-        self, content: str, tokens: List[Dict], preceded_by_space: bool = False
+        self,
+        content: str,
+        tokens: List[Dict],
+        preceded_by_space: bool = False,
+        keep_boxes: bool = False,
     ) -> Tuple[bool, int]:
         """Process content through available handlers.
 
+        Args:
+            preceded_by_space: Whether there is space right before the content
+            keep_boxes: Whether to keep the source of boxes instead of their content
+
         Returns:
             Tuple[bool, int]: (whether content was matched, new position)
         """
@@ -446,14 +454,16 @@ class LatexParser:
             if handler.can_handle(content):
                 prev_token = tokens[-1] if tokens else None
                 token, end_pos = handler.handle(content, prev_token)
-                if token:
+                is_box = isinstance(handler, BoxHandler)
+                if is_box and token and keep_boxes:
+                    self.add_token(content[:end_pos], tokens, preceded_by_space)
+                elif token:
                     self._process_token(
                         token,
                         tokens,
                         is_env_type=isinstance(handler, BaseEnvironmentHandler),
                         # boxes are text, so keep them apart from the text before
-                        add_space=preceded_by_space
-                        and isinstance(handler, BoxHandler),
+                        add_space=preceded_by_space and is_box,
                     )
                 return True, end_pos
         return False, 0
@@ -535,6 +545,15 @@ class LatexParser:
             if content[current_pos] == "{":
                 # Find matching closing brace
                 inner_content, end_pos = extract_nested_content(content[current_pos:])
+                if inner_content is not None and not handle_unknown_commands:
+                    # a pass over a table, its cells are parsed in full later on
+                    self.add_token(
+                        content[current_pos : current_pos + end_pos],
+                        tokens,
+                        current_pos > 0 and content[current_pos - 1].isspace(),
+                    )
+                    current_pos += end_pos
+                    continue
                 if inner_content is not None:
                     # Parse the content within the braces
                     nested_tokens = self.parse(inner_content)
@@ -629,6 +648,7 @@ class LatexParser:
                 tokens,
                 preceded_by_space=current_pos > 0
                 and content[current_pos - 1].isspace(),
+                keep_boxes=not handle_unknown_commands,
             )
             current_pos += end_pos
             if matched:
-- 
2.43.0


From 386f8adcfb86972752472692760cd664f413550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:08 +0000
Subject: [PATCH 059/132] fix: column specifications with math shifts,
 unbounded search for environment pairs

---
 latex2json/parser/handlers/environment.py | 4 ++++
 latex2json/parser/handlers/equation.py    | 3 ++-
 latex2json/utils/tex_utils.py             | 6 ++++--
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 1c9352b..e13a894 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -127,6 +127,10 @@ def convert_any_env_pairs_to_begin_end(content: str) -> str:
         start_pos, end_pos, inner_content = extract_nested_content_pattern(
             content, r"\\" + env_name, r"\\end" + env_name
         )
+        if start_pos == -1:
+            # not a pair after all
+            match = pattern.search(content, match.start() + 1)
+            continue
         inner_content = convert_any_env_pairs_to_begin_end(inner_content)
         inner_content = r"\begin{%s}%s\end{%s}" % (env_name, inner_content, env_name)
         content = content[:start_pos] + inner_content + content[end_pos:]
diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index 3cf0206..16f2274 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -205,10 +205,11 @@ class EquationHandler(TokenHandler):
                 if not delimiter:
                     return None, 0
 
-                equation, proper_end = extract_equation_content(
+                proper_equation, proper_end = extract_equation_content(
                     content[match.start() :], delimiter
                 )
                 if proper_end > 0:
+                    equation = proper_equation
                     end_pos = match.start() + proper_end
 
             # Process equation content
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index e7ee5d0..6f3a2ae 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -445,8 +445,10 @@ def find_delimiter_end(content: str, start_pos: int, delimiter: str) -> int:
         if content[i] == "{" and not is_escaped(i, content):
             stack.append("{")
         elif content[i] == "}" and not is_escaped(i, content):
-            if stack:
-                stack.pop()
+            if not stack:
+                # the group around ends first e.g. column specification >{$}c<{$}
+                return -1
+            stack.pop()
         elif (
             content[i:].startswith(delimiter)
             and not is_escaped(i, content)
-- 
2.43.0


From 6c2903fe6d43b93e934447d2f48322cec527bcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:05 +0000
Subject: [PATCH 060/132] fix: environment pairs do not end inside of a longer
 command name

---
 latex2json/parser/handlers/environment.py | 13 +++++++++----
 latex2json/parser/tex_parser.py           | 10 ++++------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index e13a894..02de052 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -17,11 +17,11 @@ ENV_NAME_BRACE_PATTERN = r"\{([^}]*?)\}"
 
 # e.g. \list \endlist, \xxx \endxxx etc
 # make sure to tweak the '1' in end\1 to match the relevant regex group if combining with other patterns
-ENV_PAIR_PATTERN = r"\\((?:\w|@)+\b)(\s*(?:\{[^}]*\}|\[[^]]*\])*\s*.*)\\end\1"
+ENV_PAIR_PATTERN = r"\\((?:\w|@)+\b)(\s*(?:\{[^}]*\}|\[[^]]*\])*\s*.*)\\end\1(?![a-zA-Z@])"
 
 # Check for both \begin{xxx} and \xxx \endxxx e.g. \list \endlist, etc
 ENVIRONMENT_PATTERN = re.compile(
-    r"\\begin\s*%s|%s" % (ENV_NAME_BRACE_PATTERN, ENV_PAIR_PATTERN[:-1] + "2"),
+    r"\\begin\s*%s|%s" % (ENV_NAME_BRACE_PATTERN, ENV_PAIR_PATTERN.replace(r"\1", r"\2")),
     re.DOTALL,
 )
 
@@ -117,6 +117,11 @@ def get_env_type(env_name: str) -> str:
     return ENV_TYPES.get(env_name.lower(), "environment")
 
 
+def env_pair_patterns(env_name: str) -> Tuple[str, str]:
+    r"""Patterns of e.g. \list and \endlist"""
+    return r"\\%s(?![a-zA-Z@])" % env_name, r"\\end%s(?![a-zA-Z@])" % env_name
+
+
 def convert_any_env_pairs_to_begin_end(content: str) -> str:
     r"""Convert any \aa \endaa pairs to \begin{aa} \end{aa}"""
     pattern = re.compile(ENV_PAIR_PATTERN, re.DOTALL)
@@ -125,7 +130,7 @@ def convert_any_env_pairs_to_begin_end(content: str) -> str:
     while match:
         env_name = match.group(1)
         start_pos, end_pos, inner_content = extract_nested_content_pattern(
-            content, r"\\" + env_name, r"\\end" + env_name
+            content, *env_pair_patterns(env_name)
         )
         if start_pos == -1:
             # not a pair after all
@@ -282,7 +287,7 @@ class BaseEnvironmentHandler(TokenHandler):
                 )
 
                 start_pos, end_pos, inner_content = extract_nested_content_pattern(
-                    content, r"\\" + env_name, r"\\end" + env_name
+                    content, *env_pair_patterns(env_name)
                 )
                 if env_name == "@float":
                     # e.g. \@float{table} -> \begin{@float}{table} -> \begin{table}
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 2bbcb4b..6b893e7 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -456,7 +456,8 @@ class LatexParser:
                 token, end_pos = handler.handle(content, prev_token)
                 is_box = isinstance(handler, BoxHandler)
                 if is_box and token and keep_boxes:
-                    self.add_token(content[:end_pos], tokens, preceded_by_space)
+                    box = content[:end_pos]
+                    self.add_token(" " + box if preceded_by_space else box, tokens)
                 elif token:
                     self._process_token(
                         token,
@@ -547,11 +548,8 @@ class LatexParser:
                 inner_content, end_pos = extract_nested_content(content[current_pos:])
                 if inner_content is not None and not handle_unknown_commands:
                     # a pass over a table, its cells are parsed in full later on
-                    self.add_token(
-                        content[current_pos : current_pos + end_pos],
-                        tokens,
-                        current_pos > 0 and content[current_pos - 1].isspace(),
-                    )
+                    group = content[current_pos : current_pos + end_pos]
+                    self.add_token(" " + group, tokens)
                     current_pos += end_pos
                     continue
                 if inner_content is not None:
-- 
2.43.0


From ec6984a6e9e664f27c0d8b6e660f73b82daa4caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:06 +0000
Subject: [PATCH 061/132] fix: a label after a footnote belongs to what is
 around it

---
 latex2json/parser/tex_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 6b893e7..84badf4 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -387,10 +387,11 @@ class LatexParser:
                         tokens.extend(input_tokens)
                 return
             elif token["type"] in ["footnote", "caption"]:
-                # prev_env = self.current_env
+                prev_env = self.current_env
                 self.current_env = token
                 token["content"] = self.parse(token["content"])
-                # self.current_env = prev_env
+                # a label after a caption is the caption's, but never a footnote's
+                self.current_env = token if token["type"] == "caption" else prev_env
             elif token["type"] == "url":
                 if "title" in token:
                     token["title"] = self.parse(token["title"])
-- 
2.43.0


From 6f991ffc9b469b912335afcc29fe2da51f41e910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:25 +0000
Subject: [PATCH 062/132] fix: declarations switch off only by themselves,
 styles are not repeated

---
 latex2json/parser/handlers/legacy_formatting.py | 8 +++++---
 latex2json/utils/tex_utils.py                   | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index bab5be5..c87cf42 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -232,10 +232,12 @@ class LegacyFormattingHandler(TokenHandler):
                                 " ".join(reversed(trailing_patterns)),
                             )
 
-                    # if exact match detected, we remove it because it acts like a off switch
+                    # \em acts like a off switch for itself
                     # e.g. \em some italic text ... \em no longer italic
-                    if command and re.match(r"\\" + command, content[total_pos:]):
-                        total_pos += len(command) + 1
+                    if command == "em":
+                        off = re.match(r"\\em(?![a-zA-Z])", content[total_pos:])
+                        if off:
+                            total_pos += off.end()
 
                     return formatted_text, total_pos
 
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 6f3a2ae..1e766db 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -412,7 +412,9 @@ def flatten_group_token(token: Dict) -> Dict | List[Dict]:
         if token.get("styles"):
             for content in flat_content:
                 content_styles = content.get("styles", [])
-                content["styles"] = token["styles"] + content_styles
+                content["styles"] = list(
+                    dict.fromkeys(token["styles"] + content_styles)
+                )
         return flat_content
     return token
 
-- 
2.43.0


From 10523b1d6cdaa5bbb65f69ac7235dc27bd18be5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 063/132] fix: text commands without braces, \textup and
 \textnormal act on their argument only

---
 latex2json/parser/handlers/legacy_formatting.py | 4 +++-
 latex2json/parser/handlers/text_formatting.py   | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index c87cf42..2256369 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -180,8 +180,10 @@ class LegacyFormattingHandler(TokenHandler):
                     masked = mask_math_and_verbatim(next_content)
                     if re.search(pattern.pattern, masked):
                         # find the next pattern or opening brace
+                        # (\textup{..} etc only act on their argument)
                         pattern_or_open_brace = re.compile(
-                            pattern.pattern + "|" + OPENING_BRACE_PATTERN.pattern
+                            r"(?!\\text(?:up|md|normal)\s*\{)(?:%s)|%s"
+                            % (pattern.pattern, OPENING_BRACE_PATTERN.pattern)
                         )
                         pos = 0
 
diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index a78b2d5..9dca276 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -31,7 +31,7 @@ FRONTEND_STYLE_MAPPING: Dict[str, str] = {
     "textscriptsize": "x-small",
     "textfootnotesize": "small",
     "textsmall": "small",
-    "textnormal": "medium",
+    "textnormal": "normal",
     "textlarge": "large",
     "texthuge": "xx-large",
     "text": None,
@@ -111,7 +111,7 @@ class TextFormattingHandler(TokenHandler):
         content_to_format = ""
         next_content = match.group(2)
         if next_content:
-            if next_content.endswith("{"):
+            if match.group(3):
                 next_pos = match.end(2)
                 text, end_pos = extract_nested_content("{" + content[next_pos:])
                 if text is None:
-- 
2.43.0


From 24dac9157eb0f2fb95478b31c84eb373551a4e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:19 +0000
Subject: [PATCH 064/132] fix: starred citations and graphics, notes with
 braces, links with options or braces

---
 latex2json/parser/handlers/content_command.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 63dba28..6120738 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -17,7 +17,10 @@ PARAGRAPH_LEVELS = {
     "subparagraph": 2,
 }
 
-OPTIONAL_BRACE_PATTERN = r"(?:\[([^\]]*)\])?"
+# optional argument, whose braces may hold brackets
+OPTIONAL_BRACE_PATTERN = (
+    r"(?:\[((?:[^\[\]{}]|\{(?:[^{}]|\{[^{}]*\})*\}|\[[^\[\]]*\])*|[^\]]*)\])?"
+)
 
 # short title of a heading e.g. \section[short title]{title}
 SHORT_TITLE_PATTERN = r"(?:\[(?:[^\[\]{}]|\[[^\[\]{}]*\]|\{(?:[^{}]|\{[^{}]*\})*\})*\]\s*)?"
@@ -39,7 +42,10 @@ RAW_PATTERNS = OrderedDict(
         ("ref", r"\\(?:auto|eq|page)?ref\*?\s*{"),
         ("cref", r"\\[cC]ref\*?\s*{"),
         ("hyperref", r"\\hyperref\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
-        ("href", r"\\href\s*{([^}]*)}\s*{"),
+        (
+            "href",
+            r"\\href\s*(?:\[[^\]]*\]\s*)?{((?:[^{}]|{(?:[^{}]|{[^{}]*})*})*|[^}]*)}\s*{",
+        ),
         # bookmarks
         ("bookmark", r"\\bookmark\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
@@ -54,13 +60,13 @@ RAW_PATTERNS = OrderedDict(
         ("url", r"\\(?:url|path)\s*{"),
         ("doi", r"\\doi\s*{"),
         # Graphics
-        ("includegraphics", r"\\includegraphics\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("includegraphics", r"\\includegraphics\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("includepdf", r"\\includepdf\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("graphicspath", r"\\graphicspath\s*{"),  # ignore?
         # Citations
         (
             "citation",
-            r"\\(?:cite|citep|citet|cites|citealt|citealp|citeauthor|citenum|citeyear|citeyearpar|citefullauthor)\s*%s%s\s*{"
+            r"\\(?:cite|citep|citet|cites|citealt|citealp|citeauthor|citenum|citeyear|citeyearpar|citefullauthor)\s*\*?\s*%s\s*%s\s*{"
             % (OPTIONAL_BRACE_PATTERN, OPTIONAL_BRACE_PATTERN),
         ),
         # ("citetext", r"\\citetext\s*{"), # remove citetext since it is just like regular latex -> handled by text_formatting
@@ -237,6 +243,8 @@ class ContentCommandHandler(TokenHandler):
 
         # GRAPHICS
         elif matched_type == "includegraphics":
+            # braces only protect the dots of a file name e.g. {{fig.1}.png}
+            content = content.replace("{", "").replace("}", "")
             # Extract page number from the optional parameters if present
             options = match.group(1)
             page_number = None
-- 
2.43.0


From 28fdec14155ad5bac1c251b5aea1d40ebc22aa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 065/132] fix: percent signs in paths and links with options
 are no comments

---
 latex2json/utils/tex_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 1e766db..b7f2b47 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -352,7 +352,7 @@ def is_escaped(pos: int, text: str) -> bool:
 COMMENT_PATTERN = re.compile(
     r"\\begin\s*\{(verbatim|lstlisting)\}.*?\\end\s*\{\1\}"
     r"|\\verb\*?([^a-zA-Z\s*])[^\n]*?\2"
-    r"|\\(?:url|href)\s*\{[^{}\n]*\}"
+    r"|\\(?:url|path|href)\s*(?:\[[^\]{}\n]*\]\s*)?\{(?:[^{}\n]|\{[^{}\n]*\})*\}"
     r"|(?P<comment>%[^\n\r\v\f\x1c-\x1e\x85\u2028\u2029]*"
     r"|\\begin\s*\{comment\}.*?\\end\s*\{comment\})"
     r"|\\.",
-- 
2.43.0


From 01bb85707fadecc7ebf1f25a1a3f909b4587feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 066/132] fix: page range of includepdf ends at the comma

---
 latex2json/parser/handlers/content_command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 6120738..2bef179 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -265,7 +265,7 @@ class ContentCommandHandler(TokenHandler):
             pages = None
             if options:
                 # Match both pages=1-3 and pages={1-3} formats
-                pages_match = re.search(r"pages=(?:{([0-9-,]+)}|([0-9-,]+))", options)
+                pages_match = re.search(r"pages\s*=\s*(?:{([0-9-, ]+)}|([0-9-]+))", options)
                 # Use first non-None group (either braced or unbraced match)
                 pages = (
                     next((g for g in pages_match.groups() if g is not None), None)
-- 
2.43.0


From aa697dc304136561c2f19b46d94427da12a5c4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:52 +0000
Subject: [PATCH 067/132] fix: bibliography files made by revtex, bibtex
 strings, field names and nested quotes, all fields of biblatex entries

---
 latex2json/parser/bib/bibdiv_parser.py   |  13 ++-
 latex2json/parser/bib/bibitem_parser.py  |   2 +-
 latex2json/parser/bib/bibtex_parser.py   | 108 +++++++++++++++--------
 latex2json/parser/bib/compiled_bibtex.py |  25 ++++--
 4 files changed, 99 insertions(+), 49 deletions(-)

diff --git a/latex2json/parser/bib/bibdiv_parser.py b/latex2json/parser/bib/bibdiv_parser.py
index 45c9124..8fc0c06 100644
--- a/latex2json/parser/bib/bibdiv_parser.py
+++ b/latex2json/parser/bib/bibdiv_parser.py
@@ -12,6 +12,15 @@ BibDivPattern = re.compile(r"\\begin\s*{bibdiv}")
 BibPattern = re.compile(r"\\bib\s*\{([^}]+)\}\s*\{([^}]+)\}")
 
 
+def strip_braces(value: str) -> str:
+    """Strip the braces from the value, but keep the arguments of commands"""
+    return re.sub(
+        r"(\\[a-zA-Z]+\s*)?\{([^{}]*)\}",
+        lambda m: m.group(0) if m.group(1) else m.group(2),
+        value,
+    )
+
+
 class BibDivParser:
     def __init__(self, logger: Logger = None):
         self.logger = logger or logging.getLogger(__name__)
@@ -93,7 +102,7 @@ class BibDivParser:
                     )
                     if value is not None:
                         # Strip any remaining braces from the value
-                        value = re.sub(r"\{([^}]*)\}", r"\1", value)
+                        value = strip_braces(value)
                         value = value.strip()
                         # Handle multiple instances of the same field
                         if field_name in fields:
@@ -111,7 +120,7 @@ class BibDivParser:
                         comma_pos = len(entry_content)
                     value = entry_content[field_start:comma_pos].strip()
                     # Strip any remaining braces from the value
-                    value = re.sub(r"\{([^}]*)\}", r"\1", value)
+                    value = strip_braces(value)
                     # Handle multiple instances of the same field
                     if field_name in fields:
                         fields[field_name] = f"{fields[field_name]} and {value}"
diff --git a/latex2json/parser/bib/bibitem_parser.py b/latex2json/parser/bib/bibitem_parser.py
index 8beaff1..ae98ddd 100644
--- a/latex2json/parser/bib/bibitem_parser.py
+++ b/latex2json/parser/bib/bibitem_parser.py
@@ -6,7 +6,7 @@ from latex2json.parser.bib.bibtex_parser import BibTexEntry
 
 class BibItemParser:
     BibItemPattern = re.compile(
-        r"\\bibitem\s*(?:\[(.*?)\])?\s*\{(.*?)\}\s*([\s\S]*?)(?=\\bibitem|$)",
+        r"\\bibitem(?![a-zA-Z])\s*(?:\[(.*?)\])?\s*\{(.*?)\}\s*([\s\S]*?)(?=\\bibitem(?![a-zA-Z])|$)",
         re.DOTALL,
     )
     NewblockPattern = re.compile(r"\\newblock\b")
diff --git a/latex2json/parser/bib/bibtex_parser.py b/latex2json/parser/bib/bibtex_parser.py
index 45e305a..0730c45 100644
--- a/latex2json/parser/bib/bibtex_parser.py
+++ b/latex2json/parser/bib/bibtex_parser.py
@@ -3,7 +3,7 @@ from enum import Enum
 from logging import Logger
 import logging
 import re
-from typing import Dict, List, Optional
+from typing import Dict, List, Optional, Tuple
 from latex2json.utils.tex_utils import (
     extract_nested_content,
 )
@@ -43,8 +43,14 @@ class BibTexEntry:
         )
 
 
-BibTexPattern = re.compile(r"@(\w+)\s*\{")
-BibTexFieldPattern = re.compile(r"(\w+)\s*=\s*")
+# not in commands of .bbl files e.g. \@ifx{..}
+BibTexPattern = re.compile(r"(?<!\\)@(\w+)\s*\{")
+BibTexFieldPattern = re.compile(r"([\w\-+.:/]+)\s*=\s*")
+QUOTED_VALUE_PATTERN = re.compile(
+    r'"((?:[^"{}]|\{(?:[^{}]|\{(?:[^{}]|\{[^{}]*\})*\})*\})*|[^"]*)"'
+)
+BARE_VALUE_PATTERN = re.compile(r"[^\s,{}\"=#]+")
+CONCAT_PATTERN = re.compile(r"\s*#\s*")
 
 
 class BibTexParser:
@@ -83,6 +89,45 @@ class BibTexParser:
         content = ",\n\t".join(f"{k}={{{v}}}" for k, v in fields.items())
         return f"@{entry_type}{{{citation_key},\n\t{content}\n}}"
 
+    @staticmethod
+    def _parse_value(
+        text: str, pos: int, strings: Dict[str, str]
+    ) -> Tuple[Optional[str], int]:
+        """Parse the value at pos: parts in braces, in quotes or bare, joined by #
+
+        Returns:
+            (value or None, end position)
+        """
+        value = None
+        while True:
+            while pos < len(text) and text[pos].isspace():
+                pos += 1
+            quoted = QUOTED_VALUE_PATTERN.match(text, pos)
+            bare = BARE_VALUE_PATTERN.match(text, pos)
+            if text[pos : pos + 1] == "{":
+                part, end_pos = extract_nested_content(text[pos:])
+                if part is None:
+                    # unbalanced braces
+                    return value, pos + 1
+                part = part.strip()
+                pos += end_pos
+            elif quoted:
+                # quotes inside of braces belong to the value
+                part = quoted.group(1)
+                pos = quoted.end()
+            elif bare:
+                # numbers and abbreviations
+                part = strings.get(bare.group(0).lower(), bare.group(0))
+                pos = bare.end()
+            else:
+                return value, pos + 1
+
+            value = part if value is None else value + part
+            concat = CONCAT_PATTERN.match(text, pos)
+            if not concat:
+                return value, pos
+            pos = concat.end()
+
     def parse(self, content: str) -> List[BibTexEntry]:
         """Parse BibTeX content and return list of BibEntry objects"""
         self.logger.info("Starting BibTeX parsing")
@@ -96,10 +141,13 @@ class BibTexParser:
             content = "\n".join(bibtex_entries)
 
         entries = []
-        pos = 0
+        strings = {}  # abbreviations made by @string
+        entry_end = 0
 
         # Find each entry starting with @
         for match in re.finditer(BibTexPattern, content):
+            if match.start() < entry_end:
+                continue
             entry_type = match.group(1).lower()
             start_pos = match.end() - 1  # Position of the opening brace
 
@@ -108,10 +156,24 @@ class BibTexParser:
             if entry_content is None:
                 continue
 
+            # do not look for entries inside of the values
+            entry_end = start_pos + next_pos
+
+            if entry_type == "string":
+                name, _, text = entry_content.partition("=")
+                value, _ = self._parse_value(text, 0, strings)
+                if value is not None:
+                    strings[name.strip().lower()] = value
+                continue
+            elif entry_type in ["comment", "preamble"]:
+                continue
+
             # Split into citation key and fields
             key_end = entry_content.find(",")
             if key_end == -1:
-                continue
+                key_end = len(entry_content)
+                if not entry_content.strip():
+                    continue
 
             citation_key = entry_content[:key_end].strip()
             fields_text = entry_content[key_end + 1 :].strip()
@@ -128,39 +190,9 @@ class BibTexParser:
                 field_name = field_match.group(1).lower()
                 field_start = pos + field_match.end()
 
-                # Get value - either in braces or quotes
-                if fields_text[field_start:].lstrip().startswith("{"):
-                    # Skip whitespace to actual brace
-                    while (
-                        field_start < len(fields_text)
-                        and fields_text[field_start].isspace()
-                    ):
-                        field_start += 1
-                    value, value_end = extract_nested_content(fields_text[field_start:])
-                    if value is not None:
-                        fields[field_name] = value.strip()
-                        pos = field_start + value_end
-                    else:
-                        # unbalanced braces
-                        pos = field_start + 1
-                else:
-                    # Handle quoted values (quotes inside of braces belong to the value)
-                    quote_match = re.match(
-                        r'\s*"((?:[^"{}]|\{[^{}]*\})*|[^"]*)"', fields_text[field_start:]
-                    )
-                    if quote_match:
-                        fields[field_name] = quote_match.group(1)
-                        pos = field_start + quote_match.end()
-                    else:
-                        # Handle bare values: numbers and abbreviations
-                        bare_match = re.match(
-                            r"[^\s,{}\"=]+", fields_text[field_start:]
-                        )
-                        if bare_match:
-                            fields[field_name] = bare_match.group(0)
-                            pos = field_start + bare_match.end()
-                        else:
-                            pos = field_start + 1
+                value, pos = self._parse_value(fields_text, field_start, strings)
+                if value is not None:
+                    fields[field_name] = value
 
                 # Skip trailing comma and whitespace
                 while pos < len(fields_text) and (
diff --git a/latex2json/parser/bib/compiled_bibtex.py b/latex2json/parser/bib/compiled_bibtex.py
index 68ecbdd..951a914 100644
--- a/latex2json/parser/bib/compiled_bibtex.py
+++ b/latex2json/parser/bib/compiled_bibtex.py
@@ -63,7 +63,9 @@ def parse_compiled_bibtex_entry(entry_text):
 
         if author_blocks:
             # find the hash stuff
-            for hash_match in re.finditer(r"\{hash=\w+\}\{", author_blocks):
+            for hash_match in re.finditer(
+                r"\{(?:[^{}]*,)?hash=\w+\}\{", author_blocks
+            ):
                 hash_pos = hash_match.end() - 1
                 auth_block, _ = extract_nested_content(
                     author_blocks[hash_pos:], "{", "}"
@@ -98,13 +100,20 @@ def parse_compiled_bibtex_entry(entry_text):
             field_key = "journal"
         entry[field_key] = field_value
 
-    # Parse the eprint value from the \verb block
-    eprint_match = re.search(
-        r"\\verb\{eprint\}\s*\\verb\s+(.+?)\s+\\endverb", entry_text, re.DOTALL
-    )
-    if eprint_match:
-        eprint_value = eprint_match.group(1).strip()
-        entry["eprint"] = eprint_value
+    # Parse \list blocks (e.g. publisher, location)
+    for list_match in re.finditer(r"\\list\{([^}]+)\}\{\d+\}(?=\{)", entry_text):
+        block, _ = extract_nested_content(entry_text[list_match.end() :])
+        items, _ = extract_nested_content_sequence_blocks(block or "", "{", "}")
+        if items:
+            entry[list_match.group(1).strip()] = " and ".join(
+                item.strip() for item in items
+            )
+
+    # Parse the values of \verb blocks (e.g. eprint, doi, url)
+    for verb_match in re.finditer(
+        r"\\verb\{(\w+)\}\s*\\verb\s+(.+?)\s+\\endverb", entry_text, re.DOTALL
+    ):
+        entry[verb_match.group(1)] = verb_match.group(2).strip()
 
     return entry
 
-- 
2.43.0


From 22282e6ccf97edb8f80bdb6459dcd8f1bc20b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:40 +0000
Subject: [PATCH 068/132] fix: bibdiv environments in a document are
 bibliographies

---
 latex2json/parser/bib/bibdiv_parser.py    | 2 +-
 latex2json/parser/handlers/environment.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/bib/bibdiv_parser.py b/latex2json/parser/bib/bibdiv_parser.py
index 8fc0c06..cfd894e 100644
--- a/latex2json/parser/bib/bibdiv_parser.py
+++ b/latex2json/parser/bib/bibdiv_parser.py
@@ -8,7 +8,7 @@ from latex2json.utils.tex_utils import (
 )
 from latex2json.parser.bib.bibtex_parser import BibTexEntry
 
-BibDivPattern = re.compile(r"\\begin\s*{bibdiv}")
+BibDivPattern = re.compile(r"\\begin\s*{(?:bibdiv|biblist)}")
 BibPattern = re.compile(r"\\bib\s*\{([^}]+)\}\s*\{([^}]+)\}")
 
 
diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 02de052..e818270 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -74,6 +74,8 @@ ENV_TYPES = {
     "document": "document",
     "abstract": "abstract",
     "thebibliography": "bibliography",
+    "bibdiv": "bibliography",
+    "biblist": "bibliography",
     "appendix": "appendix",
     "appendices": "appendix",
     "table": "table",
-- 
2.43.0


From 8c3a198009b1a5969c9397cbeaf901324431df8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:58 +0000
Subject: [PATCH 069/132] fix: UTF-8 text is never taken for another encoding

---
 latex2json/utils/encoding.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/latex2json/utils/encoding.py b/latex2json/utils/encoding.py
index 045f973..c93e3e7 100644
--- a/latex2json/utils/encoding.py
+++ b/latex2json/utils/encoding.py
@@ -1,5 +1,14 @@
 import chardet
 from chardet.universaldetector import UniversalDetector
+import codecs
+
+BOMS = [
+    (codecs.BOM_UTF8, "utf-8-sig"),
+    (codecs.BOM_UTF32_LE, "utf-32"),
+    (codecs.BOM_UTF32_BE, "utf-32"),
+    (codecs.BOM_UTF16_LE, "utf-16"),
+    (codecs.BOM_UTF16_BE, "utf-16"),
+]
 
 
 def detect_encoding(path: str) -> str:
@@ -15,13 +24,25 @@ def detect_encoding(path: str) -> str:
 
     # Read the file in binary mode
     with open(path, "rb") as file:
-        # Read a sample of the file for faster detection
-        # For larger files, reading the first few KB is usually sufficient
-        raw_data = file.read(10000)  # Read first 10KB
+        raw_data = file.read()
         if len(raw_data) == 0:  # Empty file
             return "utf-8"
 
-    # Detect encoding
+    # A byte order mark is certain
+    for bom, name in BOMS:
+        if raw_data.startswith(bom):
+            return name
+
+    # Text in other encodings is hardly ever valid UTF-8
+    try:
+        raw_data.decode("utf-8")
+        return "utf-8"
+    except UnicodeDecodeError:
+        pass
+
+    # Detect encoding from a sample of the file for faster detection
+    # For larger files, the first few KB are usually sufficient
+    raw_data = raw_data[:10000]  # First 10KB
     result = chardet.detect(raw_data)
     encoding = result.get("encoding", "utf-8")
 
-- 
2.43.0


From 2c67a3ec988d23a1c4dd6e304b657b54dc1325fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:58 +0000
Subject: [PATCH 070/132] fix: input files named without braces

---
 latex2json/parser/handlers/content_command.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 2bef179..c606929 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -38,6 +38,7 @@ RAW_PATTERNS = OrderedDict(
         ("captionof", r"\\captionof\*?\s*{([^}]*?)}\s*{"),
         # input
         ("input_file", r"\\(?:input|include)\s*{"),
+        ("input_file_name", r"\\input\s+([^\s{}\\]+)"),
         # REFs
         ("ref", r"\\(?:auto|eq|page)?ref\*?\s*{"),
         ("cref", r"\\[cC]ref\*?\s*{"),
@@ -118,6 +119,12 @@ class ContentCommandHandler(TokenHandler):
                     }, match.end()
                 elif pattern_name == "appendix":
                     return {"type": "appendix"}, match.end()
+                elif pattern_name == "input_file_name":
+                    # the name ends at the space e.g. \input macros.tex
+                    return {
+                        "type": "input_file",
+                        "content": match.group(1),
+                    }, match.end()
                 else:
                     # Get position after command name
                     start_pos = match.end()
-- 
2.43.0


From a44db66c0fbb40837e3bcb32e698eb0356fbd174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:58 +0000
Subject: [PATCH 071/132] fix: input files are read before the macros and
 switches are used, switches keep the branch they are set to

---
 .../parser/handlers/if_else_statements.py     | 25 ++++++++-
 latex2json/parser/tex_parser.py               | 56 ++++++++++++++++++-
 latex2json/parser/tex_preprocessor.py         | 10 +++-
 3 files changed, 85 insertions(+), 6 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 9490820..ddac90e 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -41,6 +41,8 @@ ELSE_PATTERN = re.compile(r"\\else\b")
 ELSIF_PATTERN = re.compile(
     r"\\els(?:e)?if%s|\\or%s\b" % (default_if_pattern, default_if_pattern)
 )  # Matches both \elsif and \elseif
+# setting of a switch e.g. \drafttrue
+SWITCH_PATTERN = re.compile(r"\\([a-zA-Z@]+?)(true|false)(?![a-zA-Z@])")
 FI_PATTERN = re.compile(r"\\fi\b")
 
 value_pattern = r"\\value\s*{\s*([a-zA-Z@]+)\s*}"
@@ -189,6 +191,8 @@ class IfElseBlockHandler(TokenHandler):
         self.logger = logger or logging.getLogger(__name__)
         self.all_ifs: List[Tuple[str, re.Pattern]] = []
         self.all_ifs_compiled: re.Pattern | None = None
+        # latest setting of each \newif switch, None if not set yet
+        self.switches: Dict[str, Optional[bool]] = {}
         self._reset()
 
     def clear(self):
@@ -198,14 +202,28 @@ class IfElseBlockHandler(TokenHandler):
         self.all_ifs = [
             (name, pattern) for name, pattern in IF_PATTERNS_DEFAULT_LIST.items()
         ]
+        self.switches = {}
         self._recompile_all_ifs()
 
     def process_newif(self, var_name: str):
         pattern = re.compile(r"\\if" + re.escape(var_name) + r"(?:true|false)?(?![a-zA-Z@])")
         # push to top of stack i.e. priority
         self.all_ifs.insert(0, (var_name, pattern))
+        self.switches[var_name] = None
         self._recompile_all_ifs()
 
+    def process_switch(self, content: str) -> int:
+        """Follow the setting of a switch e.g. \\drafttrue
+
+        Returns:
+            int: end position of the setting, 0 if there is none
+        """
+        match = SWITCH_PATTERN.match(content)
+        if match and match.group(1) in self.switches:
+            self.switches[match.group(1)] = match.group(2) == "true"
+            return match.end()
+        return 0
+
     def has_if(self, var_name: str) -> bool:
         return any(name == var_name for name, _ in self.all_ifs)
 
@@ -329,8 +347,11 @@ class IfElseBlockHandler(TokenHandler):
                                 start_delimiter=self.all_ifs_compiled or IF_PATTERN,
                             )
                         )
-                        # Swap if_content and else_content for \iffalse
-                        if condition.replace("{", "").replace("}", "") == "false":
+                        # Swap if_content and else_content for \iffalse and cleared switches
+                        if (
+                            condition.replace("{", "").replace("}", "") == "false"
+                            or self.switches.get(name) is False
+                        ):
                             if_content, else_content = else_content, if_content
 
                     except ValueError as e:
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 84badf4..0fb63fe 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -1,6 +1,6 @@
 from collections import OrderedDict
 import re
-from typing import List, Dict, Tuple, Union
+from typing import List, Dict, Set, Tuple, Union
 import sys, os, traceback
 import logging
 
@@ -34,13 +34,23 @@ from latex2json.utils.tex_utils import (
     read_tex_file_content,
     strip_latex_comments,
 )
-from latex2json.parser.tex_preprocessor import LatexPreprocessor
+from latex2json.parser.tex_preprocessor import (
+    LatexPreprocessor,
+    restore_placeholder_blocks,
+)
 from latex2json.parser.patterns import (
     PATTERNS,
     DELIM_PATTERN,
 )
 from latex2json.parser.packages import BoxHandler, get_all_custom_handlers
 
+INPUT_FILE_PATTERN = re.compile(
+    r"(?<!\\)\\(?:(?:input|include)\s*\{([^{}]*)\}|input\s+([^\s{}\\]+))"
+)
+DOCUMENT_PATTERN = re.compile(
+    r"\\(?:documentclass|documentstyle)(?![a-zA-Z@])|\\begin\s*\{document\}"
+)
+
 UNKNOWN_COMMAND_PATTERN = re.compile(r"(\\[@a-zA-Z\*]+(?:\s*{)?)")
 
 
@@ -596,6 +606,12 @@ class LatexParser:
                     break
                 continue
 
+            # check for settings of switches
+            end_pos = self.if_else_block_handler.process_switch(content[current_pos:])
+            if end_pos > 0:
+                current_pos += end_pos
+                continue
+
             # check for user defined commands (important to check before new definitions in case of floating \csname)
             if self.command_manager.can_handle(content[current_pos:]):
                 text, end_pos = self.command_manager.handle(content[current_pos:])
@@ -704,6 +720,38 @@ class LatexParser:
 
         return content
 
+    def _include_input_files(self, content: str, open_files: Set[str]) -> str:
+        """Replace \\input and \\include commands by the content of their files.
+
+        Files that are missing, are to be left as they are, or are documents of
+        their own are left to the parser.
+        """
+
+        def include(match: re.Match) -> str:
+            name = (match.group(1) or match.group(2)).strip()
+            path = os.path.abspath(os.path.join(self.current_file_dir, name))
+            if not should_preprocess_file(path):
+                return match.group(0)
+            paths = {path, path + ".tex"}
+            if open_files & paths:
+                # a file cannot be part of itself
+                return ""
+            try:
+                text = read_tex_file_content(path, extension=".tex")
+            except (OSError, ValueError):
+                return match.group(0)
+            text = strip_latex_comments(text)
+            if DOCUMENT_PATTERN.search(text):
+                return match.group(0)
+            text = self._include_input_files(text, open_files | paths)
+            # the end of the file is a space
+            return text + " "
+
+        content = strip_latex_comments(content)
+        content, verbatim_blocks = self.preprocessor.extract_verbatim_blocks(content)
+        content = INPUT_FILE_PATTERN.sub(include, content)
+        return restore_placeholder_blocks(content, verbatim_blocks)
+
     def parse_file(
         self, file_path: str, extension: str = ".tex"
     ) -> List[Dict[str, str]]:
@@ -731,6 +779,10 @@ class LatexParser:
                 return []
 
             preprocess = should_preprocess_file(file_path)
+            if preprocess:
+                # read the files that belong to it first, so that the definitions
+                # and settings of all files count in the order they are made
+                content = self._include_input_files(content, {file_abspath})
             out = self.parse(content, preprocess=preprocess)
             self.logger.info(f"Finished parsing file: {file_path}")
             return out
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index f189afd..3aeb5ae 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -112,7 +112,7 @@ class LatexPreprocessor:
         # 4. After all expansions, normalize whitespace and lines
         # But make sure to not normalize verbatim environments (VERBATIM_PATTERNS)
         # so we first need to find all verbatim environments, extract them out, normalize the rest, then put the verbatim environments back in
-        content, verbatim_blocks = self._extract_verbatim_blocks(content)
+        content, verbatim_blocks = self.extract_verbatim_blocks(content)
         content = normalize_whitespace_and_lines(content)
         content = restore_placeholder_blocks(content, verbatim_blocks)
 
@@ -343,6 +343,12 @@ class LatexPreprocessor:
                     )
                     continue
 
+            # follow the switches, but leave their settings to the parser too
+            end_pos = self.if_else_block_handler.process_switch(content[current_pos:])
+            if end_pos > 0:
+                current_pos += end_pos
+                continue
+
             # Expand commands using command_manager instead of command_processor
             if self.command_manager.can_handle(content[current_pos:]):
                 expanded_text, end_pos = self.command_manager.handle(
@@ -378,7 +384,7 @@ class LatexPreprocessor:
 
         return content, tokens
 
-    def _extract_verbatim_blocks(self, content: str) -> tuple[str, dict]:
+    def extract_verbatim_blocks(self, content: str) -> tuple[str, dict]:
         """
         Extracts verbatim environments from the content and replaces them with placeholders.
         Returns the modified content and a dictionary mapping placeholders to the original verbatim blocks.
-- 
2.43.0


From a1e88c7c965e387a3d7518332bd945a815eb0e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:48 +0000
Subject: [PATCH 072/132] fix: the main file found in a folder does not depend
 on the order of the file system

---
 latex2json/tex_file_extractor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index c189ccd..20cb2dd 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -45,8 +45,10 @@ class TexFileExtractor:
         Raises:
             FileNotFoundError: If no main TeX file is found
         """
-        for root, _, files in os.walk(folder_path):
-            for file in files:
+        for root, dirs, files in os.walk(folder_path):
+            # the order of the file system depends on how the files came there
+            dirs.sort()
+            for file in sorted(files):
                 if file.endswith(".tex"):
                     full_path = os.path.join(root, file)
                     try:
-- 
2.43.0


From 07ae2b68c280a53f14e9e429fea0676f909f80c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:17 +0000
Subject: [PATCH 073/132] fix: archive members with dots in their names are
 extracted

---
 latex2json/tex_file_extractor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index 20cb2dd..953cd90 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -1,4 +1,5 @@
 import os
+import re
 import gzip
 import tarfile
 import tempfile
@@ -93,7 +94,7 @@ class TexFileExtractor:
                         # Prevent path traversal and absolute paths
                         if (
                             os.path.isabs(member)
-                            or ".." in member
+                            or ".." in re.split(r"[/\\]", member)
                             or not os.path.abspath(member_path).startswith(
                                 os.path.abspath(temp_dir)
                             )
@@ -123,7 +124,7 @@ class TexFileExtractor:
                             # Prevent path traversal and absolute paths
                             if (
                                 os.path.isabs(member.name)
-                                or ".." in member.name
+                                or ".." in re.split(r"[/\\]", member.name)
                                 or not os.path.abspath(member_path).startswith(
                                     os.path.abspath(temp_dir)
                                 )
-- 
2.43.0


From ae52727e1b118f7b52bbab2020f3ac10a3d9a87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:19 +0000
Subject: [PATCH 074/132] fix: groups and author commands that are not closed,
 tables without column specification

---
 latex2json/parser/handlers/author.py  | 3 +++
 latex2json/parser/handlers/tabular.py | 4 ++++
 latex2json/parser/tex_parser.py       | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/latex2json/parser/handlers/author.py b/latex2json/parser/handlers/author.py
index 377c7f0..364045b 100644
--- a/latex2json/parser/handlers/author.py
+++ b/latex2json/parser/handlers/author.py
@@ -71,6 +71,9 @@ class AuthorHandler(TokenHandler):
             if match:
                 start_pos = match.end() - 1
                 content, end_pos = extract_nested_content(content[start_pos:])
+                if content is None:
+                    # not closed
+                    return None, match.end()
                 total_pos = start_pos + end_pos
 
                 if name == "thanks":
diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 70684a7..9e2daa9 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -469,6 +469,10 @@ class TabularHandler(BaseEnvironmentHandler):
             inner_content, max_blocks=1
         )
 
+        if not blocks:
+            # no column specification
+            blocks, end_pos = [""], 0
+
         if blocks:
             column_spec = blocks[-1]
             token["column_spec"] = column_spec.strip()
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 0fb63fe..435f3ce 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -465,6 +465,9 @@ class LatexParser:
             if handler.can_handle(content):
                 prev_token = tokens[-1] if tokens else None
                 token, end_pos = handler.handle(content, prev_token)
+                if end_pos <= 0:
+                    # not handled after all e.g. a group that is not closed
+                    continue
                 is_box = isinstance(handler, BoxHandler)
                 if is_box and token and keep_boxes:
                     box = content[:end_pos]
-- 
2.43.0


From 178fcf68170ef0eaa931314b66eefb269f2d1d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 075/132] fix: dumping nested tables and headings takes time
 linear in their depth

---
 latex2json/structure/tokens/base.py     | 15 +++++----------
 latex2json/structure/tokens/document.py | 10 ----------
 latex2json/structure/tokens/tabular.py  | 23 ++++++++++++-----------
 3 files changed, 17 insertions(+), 31 deletions(-)

diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index cc1c1e8..a8724ce 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -27,6 +27,10 @@ class BaseToken(BaseModel):
             # Convert any other types to string representation
             return str(val)
 
+    def _dump_content(self, **kwargs) -> Any:
+        """Dump the content field recursively"""
+        return self.serialize_value(self.content, **kwargs)
+
     def model_dump(self, **kwargs) -> Dict[str, Any]:
         """Override model_dump to handle recursive content dumping and ensure JSON serializability"""
         # Get exclude_none from kwargs or default to False
@@ -36,12 +40,7 @@ class BaseToken(BaseModel):
         result = super().model_dump(**kwargs)
 
         # Handle content field recursively
-        if isinstance(self.content, list):
-            result["content"] = [
-                self.serialize_value(token, **kwargs) for token in self.content
-            ]
-        else:
-            result["content"] = self.serialize_value(self.content, **kwargs)
+        result["content"] = self._dump_content(**kwargs)
 
         # likewise for titles e.g. of items, citations, refs
         title = getattr(self, "title", None)
@@ -76,10 +75,6 @@ class MathEnvToken(BaseToken):
     def model_dump(self, **kwargs):
         result = super().model_dump(**kwargs)
 
-        if self.title:
-            result["title"] = [
-                self.serialize_value(token, **kwargs) for token in self.title
-            ]
         if self.proof:
             result["proof"] = self.serialize_value(self.proof, **kwargs)
 
diff --git a/latex2json/structure/tokens/document.py b/latex2json/structure/tokens/document.py
index c45dd1f..d7db03d 100644
--- a/latex2json/structure/tokens/document.py
+++ b/latex2json/structure/tokens/document.py
@@ -19,16 +19,6 @@ class SectionToken(BaseToken):
     numbering: Optional[str] = None  # e.g. 3.1.2
     content: Optional[List[BaseToken]] = []
 
-    def model_dump(self, **kwargs):
-        result = super().model_dump(**kwargs)
-
-        if self.title:
-            result["title"] = [
-                self.serialize_value(token, **kwargs) for token in self.title
-            ]
-
-        return result
-
 
 class ParagraphToken(SectionToken):
     type: TokenType = TokenType.PARAGRAPH
diff --git a/latex2json/structure/tokens/tabular.py b/latex2json/structure/tokens/tabular.py
index 7efa486..697d1bf 100644
--- a/latex2json/structure/tokens/tabular.py
+++ b/latex2json/structure/tokens/tabular.py
@@ -27,14 +27,8 @@ class TabularToken(BaseToken):
     type: TokenType = TokenType.TABULAR
     content: TabularContentType = Field(default_factory=list)
 
-    def model_dump(self, **kwargs) -> Dict[str, Any]:
-        """Override model_dump to handle TableCell instances"""
-        kwargs["exclude_none"] = False  # we need to keep None values in content
-        result = super().model_dump(**kwargs)
-
-        if "labels" in result and result["labels"] is None:
-            del result["labels"]
-
+    def _dump_content(self, **kwargs) -> List:
+        """Dump the rows, handling TableCell instances"""
         kwargs_base = kwargs.copy()
         kwargs_base["exclude_none"] = True
 
@@ -53,9 +47,16 @@ class TabularToken(BaseToken):
             return cell
 
         # Process each cell in the tabular content
-        result["content"] = [
-            [process_cell(cell) for cell in row] for row in self.content
-        ]
+        return [[process_cell(cell) for cell in row] for row in self.content]
+
+    def model_dump(self, **kwargs) -> Dict[str, Any]:
+        """Override model_dump to keep empty cells"""
+        kwargs["exclude_none"] = False  # we need to keep None values in content
+        result = super().model_dump(**kwargs)
+
+        if "labels" in result and result["labels"] is None:
+            del result["labels"]
+
         if result.get("styles") is None:
             del result["styles"]
         return result
-- 
2.43.0


From 93d0639bb15096f6134535c5c2a3a056db039224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:50 +0000
Subject: [PATCH 076/132] fix: join the texts of tokens within equations as
 well

---
 latex2json/structure/builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 8d302a8..850daf6 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -278,6 +278,9 @@ class TokenBuilder:
                     if isinstance(token.get("title"), list):
                         token["title"] = recursive_process(token["title"])
 
+                    for key, value in (token.get("placeholders") or {}).items():
+                        token["placeholders"][key] = recursive_process(value)
+
                     if token.get("type") == "tabular":
                         # Process table rows but don't concatenate their cells
                         token["content"] = [
-- 
2.43.0


From 52ec974086902224e0ce70bc767bbf5d7e1d4021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:43 +0000
Subject: [PATCH 077/132] fix: labels in cells, malformed references,
 fractions, formulas and appendices do not raise

---
 latex2json/parser/handlers/content_command.py |  2 +-
 latex2json/parser/handlers/formatting.py      |  2 ++
 latex2json/parser/handlers/text_formatting.py |  2 +-
 latex2json/parser/tex_parser.py               | 12 +++++++++++-
 latex2json/structure/builder.py               |  3 +++
 latex2json/structure/tokens/tabular.py        |  4 +++-
 latex2json/utils/tex_utils.py                 |  4 +++-
 7 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index c606929..7d091d0 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -200,7 +200,7 @@ class ContentCommandHandler(TokenHandler):
             return {
                 "type": "ref",
                 "title": content,
-                "content": [match.group(1).strip()],
+                "content": [match.group(1).strip()] if match.group(1) else [],
             }
 
         # URLs
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index d9d2207..a2d1685 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -416,6 +416,8 @@ class FormattingHandler(TokenHandler):
                     extracted_content, end_pos = extract_nested_content(
                         content[start_pos:]
                     )
+                    if extracted_content is None:
+                        return None, match.end()
                     return {
                         "type": "equation",
                         "content": extracted_content,
diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index 9dca276..c4f9a1b 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -127,7 +127,7 @@ class TextFormattingHandler(TokenHandler):
             else:
                 # get first character that is not space
                 index = find_first_nonspace(next_content)
-                content_to_format = next_content[index]
+                content_to_format = next_content[index : index + 1]
                 if content_to_format == "\\":
                     # if command, no content
                     content_to_format = ""
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 435f3ce..b228d5a 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -464,7 +464,17 @@ class LatexParser:
         for handler in self.handlers:
             if handler.can_handle(content):
                 prev_token = tokens[-1] if tokens else None
-                token, end_pos = handler.handle(content, prev_token)
+                if isinstance(handler, TabularHandler) and not self.current_env:
+                    # labels in the cells of a table that is in no environment are its own
+                    table = {"labels": []}
+                    self.current_env = table
+                    token, end_pos = handler.handle(content, prev_token)
+                    self.current_env = None
+                    if token and table["labels"]:
+                        token["labels"] = table["labels"]
+                        self.labels.update({label: token for label in token["labels"]})
+                else:
+                    token, end_pos = handler.handle(content, prev_token)
                 if end_pos <= 0:
                     # not handled after all e.g. a group that is not closed
                     continue
diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 850daf6..dd6b894 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -291,6 +291,9 @@ class TokenBuilder:
                     elif isinstance(token.get("content"), list):
                         token["content"] = recursive_process(token["content"])
                         processed_tokens.append(token)
+                    elif token.get("type") == "appendix":
+                        token["content"] = []
+                        processed_tokens.append(token)
                     else:
                         processed_tokens.append(token)
                 elif isinstance(token, list):
diff --git a/latex2json/structure/tokens/tabular.py b/latex2json/structure/tokens/tabular.py
index 697d1bf..9ea86df 100644
--- a/latex2json/structure/tokens/tabular.py
+++ b/latex2json/structure/tokens/tabular.py
@@ -105,7 +105,9 @@ class TabularToken(BaseToken):
         processed_list = []
         for item in nested_list:
             if isinstance(item, dict) and "type" in item:
-                processed_list.append(create_token(item))
+                token = create_token(item)
+                if token is not None:
+                    processed_list.append(token)
             elif isinstance(item, list):
                 processed_list.append(cls._process_nested_list(item, create_token))
             else:
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index b7f2b47..45bfe02 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -401,7 +401,9 @@ def flatten_all_to_string(tokens: List[Dict | str | List] | str) -> str:
         elif isinstance(token, dict) and isinstance(token.get("content"), list):
             return flatten_all_to_string(token["content"])
         else:
-            return token["content"]
+            # e.g. commands without arguments have no content
+            content = token.get("content")
+            return token.get("command", "") if content is None else content
 
     return " ".join(flatten_token(token) for token in tokens)
 
-- 
2.43.0


From 0fdfbca683cf553652dce920a681067ad0abd473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 078/132] fix: conditionals of every form keep one branch,
 booleans are followed, verbatim text is not searched

---
 .../parser/handlers/if_else_statements.py     | 125 ++++++++++++++++--
 latex2json/parser/sty_parser.py               |   6 +-
 latex2json/parser/tex_preprocessor.py         |   3 +-
 3 files changed, 117 insertions(+), 17 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index ddac90e..0c3bbdc 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -5,7 +5,10 @@ import re
 
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.handlers.new_definition import extract_and_concat_nested_csname
-from latex2json.utils.tex_utils import extract_nested_content_sequence_blocks
+from latex2json.utils.tex_utils import (
+    extract_nested_content_sequence_blocks,
+    mask_verbatim,
+)
 from latex2json.parser.patterns import command_with_opt_brace_pattern, command_or_dim
 
 # Could be character, command, or more complex token
@@ -29,7 +32,7 @@ tex_token_pattern = r"""
 
 # Pattern for \ifx with two tokens to compare
 ifx_pattern = re.compile(
-    r"\\ifx\s*"
+    r"\\ifx(?![a-zA-Z@]{2})\s*"
     + rf"({tex_token_pattern})\s*"  # First token
     + rf"({tex_token_pattern})",  # Second token
     re.VERBOSE,
@@ -43,6 +46,17 @@ ELSIF_PATTERN = re.compile(
 )  # Matches both \elsif and \elseif
 # setting of a switch e.g. \drafttrue
 SWITCH_PATTERN = re.compile(r"\\([a-zA-Z@]+?)(true|false)(?![a-zA-Z@])")
+# the same of ifthen and etoolbox e.g. \setboolean{draft}{true}, \booltrue{draft}
+NEW_BOOL_PATTERN = re.compile(r"\\(?:new|provide)bool(?:ean)?\s*\{\s*([^{}]*?)\s*\}")
+SET_BOOL_PATTERN = re.compile(
+    r"\\setbool(?:ean)?\s*\{\s*([^{}]*?)\s*\}\s*\{\s*(true|false)\s*\}"
+    r"|\\bool(true|false)\s*\{\s*([^{}]*?)\s*\}"
+)
+# test of such a switch in \ifthenelse
+BOOLEAN_TEST_PATTERN = re.compile(
+    r"\s*(\\(?:not|NOT)(?![a-zA-Z@])\s*)?\\boolean\s*\{\s*([^{}]*?)\s*\}\s*$"
+)
+UNLESS_PATTERN = re.compile(r"\\unless\s*(?=\\)")
 FI_PATTERN = re.compile(r"\\fi\b")
 
 value_pattern = r"\\value\s*{\s*([a-zA-Z@]+)\s*}"
@@ -58,8 +72,20 @@ ifdim_pattern = rf"\\ifdim\s*{command_or_dim}\s*([=<>])\s*{command_or_dim}"
 # \ifcat takes two items to compare
 ifcat_pattern = rf"\\ifcat\s*{char_or_command_pattern}\s*{char_or_command_pattern}"
 
+# item to test after e.g. \ifodd, \ifvoid, \ifcase
+number_pattern = rf"(?:{value_pattern}|-?\d+|\\[a-zA-Z]+\d*(?![a-zA-Z@]))"
+
 EQUAL_PATTERN = re.compile(r"\\equal\s*\{")
 
+# control words starting with \if that are no conditionals closed by \fi
+NO_FI_PATTERN = (
+    r"\\if(?:f|thenelse|bool|boolexpr|toggle|undef|def|cs(?:def|undef)"
+    r"|(?:def|cs)(?:empty|void|equal|string|strequal|macro|param|parse)"
+    r"|str(?:equal|empty)|blank|(?:num|dim)(?:comp|equal|greater|less|odd)"
+    r"|(?:x)?inlist)(?![a-zA-Z@])"
+    r"|\\@if(?:classloaded|packageloaded|undefined|star|nextchar|definable)(?![a-zA-Z@])"
+)
+
 # ordered dict so that ifthenelse/ifnum etc is matched before general if
 IF_PATTERNS_DEFAULT_LIST = OrderedDict(
     {
@@ -71,12 +97,21 @@ IF_PATTERNS_DEFAULT_LIST = OrderedDict(
         "ifnum": re.compile(ifnum_pattern),
         "ifdim": re.compile(ifdim_pattern),
         "ifcat": re.compile(ifcat_pattern),
-        "ifcase": re.compile(r"\\ifcase" + default_if_pattern),
+        "ifcase": re.compile(rf"\\ifcase\s*{number_pattern}"),
+        "ifodd": re.compile(rf"\\ifodd\s*{number_pattern}(?!@)"),
+        "ifvoid": re.compile(rf"\\if(?:void|hbox|vbox|eof)\s*{number_pattern}"),
+        "ifcsname": re.compile(r"\\ifcsname(?![a-zA-Z@])[\s\S]*?\\endcsname"),
+        "ifbool": re.compile(r"\\(?:ifbool|notbool)\s*\{"),
         "iffileexists": re.compile(r"\\IfFileExists\s*\{"),
         "@ifclassloaded": re.compile(r"\\@ifclassloaded\s*\{"),
         "@ifpackageloaded": re.compile(r"\\@ifpackageloaded\s*\{"),
         "@ifundefined": re.compile(r"\\@ifundefined\s*\{"),
         "@ifstar": re.compile(r"\\@ifstar\s*\{"),
+        # a single word e.g. \iftrue, \ifpdf
+        "ifword": re.compile(
+            r"(?!%s)\\@?if(?!(?:x|cat|num|dim|defined|csname)(?![a-zA-Z@]))"
+            r"(?:(?:true|false)(?![a-zA-Z@])|[a-zA-Z@]+\d*)" % NO_FI_PATTERN
+        ),
         "if": IF_PATTERN,
     }
 )
@@ -96,13 +131,14 @@ def extract_else_elseif_fi(
     else_content = []
     elsif_branches = []
     current_buffer = if_content
+    masked = mask_verbatim(content)  # no control words in verbatim text
 
     while pos < content_length and nesting_level > 0:
         # Find all possible next matches
-        start_match = start_delimiter.search(content[pos:])
-        end_match = end_delimiter.search(content[pos:])
-        else_match = else_delimiter.search(content[pos:])
-        elsif_match = elsif_delimiter.search(content[pos:])
+        start_match = start_delimiter.search(masked[pos:])
+        end_match = end_delimiter.search(masked[pos:])
+        else_match = else_delimiter.search(masked[pos:])
+        elsif_match = elsif_delimiter.search(masked[pos:])
 
         valid_matches = []
         if start_match:
@@ -222,6 +258,16 @@ class IfElseBlockHandler(TokenHandler):
         if match and match.group(1) in self.switches:
             self.switches[match.group(1)] = match.group(2) == "true"
             return match.end()
+        match = NEW_BOOL_PATTERN.match(content)
+        if match:
+            if not match.group(0).startswith("\\provide") or match.group(1) not in self.switches:
+                self.switches[match.group(1)] = False
+            return match.end()
+        match = SET_BOOL_PATTERN.match(content)
+        if match:
+            name = match.group(1) or match.group(4)
+            self.switches[name] = (match.group(2) or match.group(3)) == "true"
+            return match.end()
         return 0
 
     def has_if(self, var_name: str) -> bool:
@@ -236,11 +282,39 @@ class IfElseBlockHandler(TokenHandler):
             pattern += "|" + v.pattern
         if pattern.startswith("|"):
             pattern = pattern[1:]
-        self.all_ifs_compiled = re.compile(pattern)
+        # used to find nested conditionals, that have a \fi
+        self.all_ifs_compiled = re.compile(
+            r"(?!%s|\\IfFileExists|\\notbool)(?:%s)" % (NO_FI_PATTERN, pattern)
+        )
 
     def can_handle(self, content: str) -> bool:
+        unless = UNLESS_PATTERN.match(content)
+        if unless:
+            content = content[unless.end() :]
         return any(pattern.match(content) for _, pattern in self.all_ifs)
 
+    def _handle_ifbool(
+        self, content: str, match: re.Match
+    ) -> Tuple[Optional[Dict], int]:
+        start_pos = match.end() - 1
+        blocks, end_pos = extract_nested_content_sequence_blocks(
+            content[start_pos:], "{", "}", max_blocks=3
+        )
+        if len(blocks) != 3:
+            return None, 0
+        name, if_content, else_content = blocks
+        value = self.switches.get(name.strip(), None)
+        if "notbool" in match.group(0) and value is not None:
+            value = not value
+        if value is False:
+            if_content, else_content = else_content, if_content
+        return {
+            "type": "conditional-ifbool",
+            "condition": name.strip(),
+            "if_content": if_content,
+            "else_content": else_content,
+        }, start_pos + end_pos
+
     def _handle_atif(
         self, content: str, match: re.Match, name: str
     ) -> Tuple[Optional[Dict], int]:
@@ -297,12 +371,36 @@ class IfElseBlockHandler(TokenHandler):
     def handle(
         self, content: str, prev_token: Optional[Dict] = None
     ) -> Tuple[Optional[Dict], int]:
+        unless = UNLESS_PATTERN.match(content)
+        if unless:
+            # the opposite test, where its outcome is known
+            token, end_pos = self.handle(content[unless.end() :], prev_token)
+            if not token:
+                return None, 0
+            if token.get("is_known"):
+                token["if_content"], token["else_content"] = (
+                    token["else_content"],
+                    token["if_content"],
+                )
+            return token, unless.end() + end_pos
+
         for name, pattern in self.all_ifs:
             match = pattern.match(content)
             if match:
                 if name == "ifthenelse":
                     token, end_pos = try_handle_ifthenelse(content, match)
+                    test = token and BOOLEAN_TEST_PATTERN.match(token["condition"])
+                    value = self.switches.get(test.group(2)) if test else None
+                    if value is not None and value == bool(test.group(1)):
+                        token["if_content"], token["else_content"] = (
+                            token["else_content"],
+                            token["if_content"],
+                        )
                     return token, end_pos
+                elif name == "iffileexists":
+                    return self._handle_iffileexists(content, match)
+                elif name == "ifbool":
+                    return self._handle_ifbool(content, match)
                 elif name in [
                     "@ifclassloaded",
                     "@ifpackageloaded",
@@ -334,6 +432,8 @@ class IfElseBlockHandler(TokenHandler):
                             condition = inner.strip()
                     else:
                         start_pos = match.end()
+                        if name == "ifword":
+                            name = "if"
                         if condition == "\\if" + name or condition == "\\@if" + name:
                             condition = name
                         else:
@@ -347,11 +447,11 @@ class IfElseBlockHandler(TokenHandler):
                                 start_delimiter=self.all_ifs_compiled or IF_PATTERN,
                             )
                         )
+                        value = self.switches.get(name)
+                        if condition in ["true", "false"]:
+                            value = condition == "true"
                         # Swap if_content and else_content for \iffalse and cleared switches
-                        if (
-                            condition.replace("{", "").replace("}", "") == "false"
-                            or self.switches.get(name) is False
-                        ):
+                        if value is False:
                             if_content, else_content = else_content, if_content
 
                     except ValueError as e:
@@ -365,6 +465,7 @@ class IfElseBlockHandler(TokenHandler):
                         "if_content": if_content,
                         "else_content": else_content,
                         "elsif_branches": elsif_branches,
+                        "is_known": value is not None,
                     }, start_pos + end_pos
 
         return None, 0
diff --git a/latex2json/parser/sty_parser.py b/latex2json/parser/sty_parser.py
index f9672e1..02a194e 100644
--- a/latex2json/parser/sty_parser.py
+++ b/latex2json/parser/sty_parser.py
@@ -119,10 +119,10 @@ class LatexStyParser:
                 block = ""
                 if token:
                     typing = token.get("type", "")
-                    if "@" not in typing:
-                        block = token.get("if_content", "")
                     # Handle iffileexists condition
-                    elif typing == "conditional-iffileexists":
+                    if typing != "conditional-iffileexists":
+                        block = token.get("if_content", "")
+                    else:
                         block = token.get("else_content", "")
 
                         file_path = token.get("condition", "").strip()
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 3aeb5ae..9bcc8d2 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -370,8 +370,7 @@ class LatexPreprocessor:
                 if end_pos > 0:
                     block = ""
                     if token:
-                        if "@" not in token.get("type", ""):
-                            block = token.get("if_content", "")
+                        block = token.get("if_content", "")
                     content = (
                         content[:current_pos] + block + content[current_pos + end_pos :]
                     )
-- 
2.43.0


From 5ca7143896a871427c94416358b2d4c4786dbc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 079/132] fix: accents over any base and tilde accents, spaces
 between accented letters and symbols, discretionary hyphens

---
 latex2json/parser/handlers/diacritics.py | 58 ++++++++++++++++++++----
 latex2json/parser/handlers/formatting.py |  4 +-
 latex2json/parser/patterns.py            |  2 +-
 latex2json/parser/tex_parser.py          |  8 ++--
 4 files changed, 58 insertions(+), 14 deletions(-)

diff --git a/latex2json/parser/handlers/diacritics.py b/latex2json/parser/handlers/diacritics.py
index 26e3fe3..290cad8 100644
--- a/latex2json/parser/handlers/diacritics.py
+++ b/latex2json/parser/handlers/diacritics.py
@@ -3,6 +3,7 @@ import unicodedata
 import re
 
 from latex2json.parser.handlers.base import TokenHandler
+from latex2json.latex_maps.latex_unicode_converter import LatexUnicodeConverter
 from latex2json.utils.tex_utils import extract_nested_content, substitute_patterns
 
 # Unicode combining characters for various LaTeX accent commands
@@ -61,6 +62,14 @@ def generate_accent_patterns():
 ACCENT_PATTERNS = generate_accent_patterns()
 
 
+# what an accent over nothing stands for
+SPACING_ACCENTS = {"'": "\u00b4", "`": "`", '"': "\u00a8", "^": "^", "~": "~"}
+
+BASE_COMMAND_PATTERN = re.compile(r"\\([a-zA-Z]+|.)", re.DOTALL)
+
+_unicode_converter = LatexUnicodeConverter()
+
+
 def apply_accent(base_char: str, accent: str) -> str:
     """
     Apply a LaTeX accent to a base character using Unicode combining characters.
@@ -79,13 +88,22 @@ def apply_accent(base_char: str, accent: str) -> str:
     if accent not in ACCENT_MAP:
         return base_char
 
-    # Split into first char and rest
-    first_char = base_char[0]
-    rest = base_char[1:]
+    # Split into first char (and the accents it has already) and rest
+    end = 1
+    while end < len(base_char) and unicodedata.combining(base_char[end]):
+        end += 1
 
     # Combine only the first character with the accent and normalize
-    combined = first_char + ACCENT_MAP[accent]
-    return unicodedata.normalize("NFC", combined) + rest
+    combined = base_char[:end] + ACCENT_MAP[accent]
+    return unicodedata.normalize("NFC", combined) + base_char[end:]
+
+
+def convert_base(base: str) -> str:
+    """Convert what is under an accent: letters, the letters \\i, \\ae etc. or further accents"""
+    base = convert_tex_diacritics(base).strip()
+    # the dotless letters get their accent instead of the dot
+    base = re.sub(r"\\([ij])(?:\{\}|(?![a-zA-Z@]))\s*", r"\1", base)
+    return _unicode_converter.convert(base)
 
 
 def convert_tex_diacritics(text: str) -> str:
@@ -107,10 +125,34 @@ def parse_diacritic_match(
     last_char = matched_str[-1]
     if last_char == "{":
         out, nested_end_pos = extract_nested_content(text[end_pos - 1 :])
-        if out:
-            out = out.strip()
-            last_char = out
+        if out is not None:
+            last_char = convert_base(out)
             end_pos += nested_end_pos - 1
+            if not last_char:
+                return SPACING_ACCENTS.get(accent_name, ""), end_pos
+    elif last_char == "\\":
+        # the letter is a command e.g. \"\i
+        base = BASE_COMMAND_PATTERN.match(text, end_pos - 1)
+        if base:
+            accent = next(
+                (
+                    (name, m)
+                    for name, pattern in ACCENT_PATTERNS.items()
+                    if (m := pattern.match(text, base.start()))
+                ),
+                None,
+            )
+            if accent:
+                last_char, end_pos = parse_diacritic_match(text, accent[1], accent[0])
+            else:
+                last_char = convert_base(base.group(0))
+                end_pos = base.end()
+                if base.group(1).isalpha():
+                    # spaces end the command, as do empty braces, and the word goes on
+                    rest = re.compile(r"\{\}|[ \t]+([^\W_]+)").match(text, end_pos)
+                    if rest:
+                        last_char += rest.group(1) or ""
+                        end_pos = rest.end()
 
     converted = apply_accent(last_char, accent_name)
     return converted, end_pos
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index a2d1685..8cfc15b 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -235,7 +235,7 @@ RAW_PATTERNS = OrderedDict(
             r"\\c@page\b|\\(?:counterwithin|counterwithout)\s*\{[^}]*}\s*\{[^}]*\}|\\refstepcounter{[^}]+}|\\@addtoreset\s*\{[^}]*\}\s*\{[^}]*\}",
         ),
         ("add_enumerate_counter", r"\\AddEnumerateCounter\s*\{"),
-        ("backslash", r"\\(?:backslash|textbackslash|arraybackslash)\b"),
+        ("backslash", r"\\(?:backslash|textbackslash|arraybackslash)(?![a-zA-Z@])"),
         ("geometry", r"\\geometry\s*\{"),
         ("ensuremath", r"\\ensuremath\s*{"),
         ("stackmath", r"\\stackMath\b"),
@@ -257,7 +257,7 @@ RAW_PATTERNS = OrderedDict(
         ),
         ("newmdenv", re.compile(r"\\newmdenv\s*(?:\[(.*?)\])?\s*\{(.*?)\}", re.DOTALL)),
         ("pz@", r"(?:%s)?\\[pz]@(?![a-zA-Z@])" % number_regex),
-        ("slash", r"\\/"),  # \/ (in latex, this is like an empty space)
+        ("slash", r"\\[/-]"),  # \/ and \- (in latex, these are like an empty space)
         ("@empty", r"\\@empty(?![a-zA-Z@])"),
         (
             "advance",
diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 868ce44..1de8263 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -22,7 +22,7 @@ command_or_dim = rf"(?:[-+]?\s*{command_with_opt_brace_pattern}|{number_points_s
 # match $ or % or { or } only if not preceded by \
 # Update DELIM_PATTERN to also match double backslashes and opening braces {
 DELIM_PATTERN = re.compile(
-    r"(?<!\\)(?:\\\\|\$|%|(?:^|[ \t])\{|\s{|{}|\\\^|\\(?![$%&_#{}^~\\]))"
+    r"(?<!\\)(?:\\\\|\$|%|(?:^|[ \t])\{|\s{|{}|\\(?![$%&_#{}\\]))"
 )
 
 DOCUMENTCLASS_PATTERN = re.compile(
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index b228d5a..53762f7 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -487,8 +487,9 @@ class LatexParser:
                         token,
                         tokens,
                         is_env_type=isinstance(handler, BaseEnvironmentHandler),
-                        # boxes are text, so keep them apart from the text before
-                        add_space=preceded_by_space and is_box,
+                        # boxes and letters are text, so keep them apart from the text before
+                        add_space=preceded_by_space
+                        and (is_box or isinstance(handler, DiacriticsHandler)),
                     )
                 return True, end_pos
         return False, 0
@@ -693,9 +694,10 @@ class LatexParser:
             # check for unknown command
             if handle_unknown_commands:
                 token, end_pos = self._check_unknown_command(content[current_pos:])
+                add_space = current_pos > 0 and content[current_pos - 1].isspace()
                 current_pos += end_pos
                 if token:
-                    self.add_token(token, tokens)
+                    self.add_token(token, tokens, add_space)
                     if token["type"] == "command":
                         cmd_name = token["command"]
                         if cmd_name not in self._unknown_commands:
-- 
2.43.0


From e39324d62b96b2576850388eaa675af7e2945d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:13 +0000
Subject: [PATCH 080/132] fix: letters and symbols in cells and before groups

---
 latex2json/parser/handlers/diacritics.py |  2 ++
 latex2json/parser/tex_parser.py          | 36 +++++++++++++++---------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/latex2json/parser/handlers/diacritics.py b/latex2json/parser/handlers/diacritics.py
index 290cad8..c233ced 100644
--- a/latex2json/parser/handlers/diacritics.py
+++ b/latex2json/parser/handlers/diacritics.py
@@ -101,6 +101,8 @@ def apply_accent(base_char: str, accent: str) -> str:
 def convert_base(base: str) -> str:
     """Convert what is under an accent: letters, the letters \\i, \\ae etc. or further accents"""
     base = convert_tex_diacritics(base).strip()
+    # a letter in further braces
+    base = re.sub(r"^(?:\{\s*)+([^{}]*)\}+", r"\1", base)
     # the dotless letters get their accent instead of the dot
     base = re.sub(r"\\([ij])(?:\{\}|(?![a-zA-Z@]))\s*", r"\1", base)
     return _unicode_converter.convert(base)
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 53762f7..223c0d5 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -238,6 +238,10 @@ class LatexParser:
             total_content = command
             if command.endswith("{"):
                 command = command[:-1]
+                symbol = self._expand_command(command.rstrip())
+                if not symbol.startswith("\\"):
+                    # a symbol takes no arguments, what follows is a group of its own
+                    return {"type": "text", "content": symbol}, len(command.rstrip())
                 inner_content, inner_end_pos = extract_nested_content(
                     content[end_pos - 1 :]
                 )
@@ -450,13 +454,13 @@ class LatexParser:
         content: str,
         tokens: List[Dict],
         preceded_by_space: bool = False,
-        keep_boxes: bool = False,
+        keep_source: bool = False,
     ) -> Tuple[bool, int]:
         """Process content through available handlers.
 
         Args:
             preceded_by_space: Whether there is space right before the content
-            keep_boxes: Whether to keep the source of boxes instead of their content
+            keep_source: Whether to keep the source of boxes and letters instead of their content
 
         Returns:
             Tuple[bool, int]: (whether content was matched, new position)
@@ -478,18 +482,22 @@ class LatexParser:
                 if end_pos <= 0:
                     # not handled after all e.g. a group that is not closed
                     continue
-                is_box = isinstance(handler, BoxHandler)
-                if is_box and token and keep_boxes:
-                    box = content[:end_pos]
-                    self.add_token(" " + box if preceded_by_space else box, tokens)
+                # boxes and letters are text
+                is_text = isinstance(
+                    handler, (BoxHandler, DiacriticsHandler)
+                ) or content.startswith("\\textbackslash")
+                if is_text and token and keep_source:
+                    source = content[:end_pos]
+                    self.add_token(
+                        " " + source if preceded_by_space else source, tokens
+                    )
                 elif token:
                     self._process_token(
                         token,
                         tokens,
                         is_env_type=isinstance(handler, BaseEnvironmentHandler),
-                        # boxes and letters are text, so keep them apart from the text before
-                        add_space=preceded_by_space
-                        and (is_box or isinstance(handler, DiacriticsHandler)),
+                        # keep text apart from the text before
+                        add_space=preceded_by_space and is_text,
                     )
                 return True, end_pos
         return False, 0
@@ -574,7 +582,9 @@ class LatexParser:
                 if inner_content is not None and not handle_unknown_commands:
                     # a pass over a table, its cells are parsed in full later on
                     group = content[current_pos : current_pos + end_pos]
-                    self.add_token(" " + group, tokens)
+                    if current_pos == 0 or content[current_pos - 1].isspace():
+                        group = " " + group
+                    self.add_token(group, tokens)
                     current_pos += end_pos
                     continue
                 if inner_content is not None:
@@ -677,7 +687,7 @@ class LatexParser:
                 tokens,
                 preceded_by_space=current_pos > 0
                 and content[current_pos - 1].isspace(),
-                keep_boxes=not handle_unknown_commands,
+                keep_source=not handle_unknown_commands,
             )
             current_pos += end_pos
             if matched:
@@ -692,9 +702,9 @@ class LatexParser:
                 continue
 
             # check for unknown command
+            add_space = current_pos > 0 and content[current_pos - 1].isspace()
             if handle_unknown_commands:
                 token, end_pos = self._check_unknown_command(content[current_pos:])
-                add_space = current_pos > 0 and content[current_pos - 1].isspace()
                 current_pos += end_pos
                 if token:
                     self.add_token(token, tokens, add_space)
@@ -718,7 +728,7 @@ class LatexParser:
                             )
                     continue
 
-            self.add_token(content[current_pos], tokens)
+            self.add_token(content[current_pos], tokens, add_space)
             current_pos += 1
 
         return tokens
-- 
2.43.0


From ae67cffa8574d03a0a26a380ef6aab17fe3009fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:54 +0000
Subject: [PATCH 081/132] fix: the preamble holds environment definitions and
 those before the class, counters with a reset

---
 latex2json/parser/handlers/new_definition.py |  6 ++-
 latex2json/parser/tex_preamble.py            | 53 ++++++++++++++------
 2 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 2fdc5fd..63de24f 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -99,8 +99,10 @@ PATTERNS = {
         re.DOTALL,
     ),
     "newcounter": re.compile(
-        r"\\(?:(?:re)?newcounter|stepcounter)\s*" + BRACE_CONTENT_PATTERN, re.DOTALL
+        r"\\(?:re)?newcounter\s*%s(?:\s*\[[^\]]*\])?" % BRACE_CONTENT_PATTERN,
+        re.DOTALL,
     ),
+    "stepcounter": re.compile(r"\\stepcounter\s*" + BRACE_CONTENT_PATTERN, re.DOTALL),
     "newother": re.compile(r"\\(?:re)?new(?:count|dimen|skip|muskip)\s*\\([^\s{[]+)"),
     "newcolumntype": re.compile(
         r"\\(?:newcolumntype|renewcolumntype)\s*\{[^}]*\}(?:\s*\[\d+\])?\s*{", re.DOTALL
@@ -209,7 +211,7 @@ class NewDefinitionHandler(TokenHandler):
                     return self._handle_setlength(content, match)
                 elif pattern_name == "newfam":
                     return self._handle_newfam(match)
-                elif pattern_name == "newcounter" or pattern_name == "setcounter":
+                elif pattern_name in ["newcounter", "stepcounter", "setcounter"]:
                     return self._handle_newcounter(match)
                 elif pattern_name == "newother":
                     return self._handle_newother(match)
diff --git a/latex2json/parser/tex_preamble.py b/latex2json/parser/tex_preamble.py
index 930d73a..a50ed09 100644
--- a/latex2json/parser/tex_preamble.py
+++ b/latex2json/parser/tex_preamble.py
@@ -13,7 +13,8 @@ from latex2json.utils.tex_utils import read_tex_file_content, strip_latex_commen
 
 sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
 
-from latex2json.parser.handlers import NewDefinitionHandler
+from latex2json.parser.handlers import EnvironmentHandler, NewDefinitionHandler
+from latex2json.parser.handlers.environment import NEW_ENVIRONMENT_PATTERN
 
 
 BEGIN_DOCUMENT_PATTERN = re.compile(r"\\begin\s*\{document\}", re.DOTALL)
@@ -30,24 +31,25 @@ DELIM_PATTERN = re.compile(r"\\(?=[a-zA-Z@])[a-zA-Z@]+")
 MAKEATLETTER_PATTERN = re.compile(r"\\makeatletter\b")
 MAKEATOTHER_PATTERN = re.compile(r"\\makeatother\b")
 
+# files written by the document, not part of it
+FILECONTENTS_PATTERN = re.compile(
+    r"\\begin\s*\{(filecontents\*?)\}.*?\\end\s*\{\1\}", re.DOTALL
+)
+
 
 class LatexPreamble:
     def __init__(self, logger=None):
         self.logger = logger or logging.getLogger(__name__)
 
         self.new_definition_handler = NewDefinitionHandler()
+        self.environment_handler = EnvironmentHandler()
 
     def clear(self):
         self.new_definition_handler.clear()
+        self.environment_handler.clear()
 
     def _preprocess_content(self, content: str) -> str:
-        content = strip_latex_comments(content)
-
-        # get all content before begin document
-        begin_doc_search = re.search(BEGIN_DOCUMENT_PATTERN, content)
-        if begin_doc_search:
-            content = content[: begin_doc_search.start()]
-        return content.strip()
+        return strip_latex_comments(content).strip()
 
     def get_preamble(
         self, content: str, file_dir: str = None
@@ -64,12 +66,6 @@ class LatexPreamble:
 
         output_preamble = ""
 
-        # find from documentclass onwards
-        doc_class_match = DOCUMENTCLASS_PATTERN.search(content)
-        if doc_class_match:
-            # output_preamble += doc_class_match.group(0) + "\n\n"
-            current_pos = doc_class_match.end()
-
         while current_pos < len(content):
             # find the next delimiter (this block allows us to quickly identify and process chunks of text between special LaTeX delimiters
             # without it, we would have to parse the entire content string character by character. which would be slower.)
@@ -86,6 +82,18 @@ class LatexPreamble:
                     break
                 continue
 
+            # get all content before begin document, as long as that is not part of a definition
+            if BEGIN_DOCUMENT_PATTERN.match(content, current_pos):
+                break
+
+            # the document class itself is no part of it
+            skip_match = DOCUMENTCLASS_PATTERN.match(
+                content, current_pos
+            ) or FILECONTENTS_PATTERN.match(content, current_pos)
+            if skip_match:
+                current_pos = skip_match.end()
+                continue
+
             use_pattern_match = USE_PATTERN.match(content[current_pos:])
             if use_pattern_match:
                 end_pos = use_pattern_match.end()
@@ -98,7 +106,11 @@ class LatexPreamble:
             if makeatletter_match:
                 # Find the matching makeatother
                 makeatother_match = MAKEATOTHER_PATTERN.search(content[current_pos:])
-                if makeatother_match:
+                begin_doc_match = BEGIN_DOCUMENT_PATTERN.search(content[current_pos:])
+                if makeatother_match and not (
+                    begin_doc_match
+                    and begin_doc_match.start() < makeatother_match.start()
+                ):
                     end_pos = makeatother_match.end()
                     output_preamble += (
                         content[current_pos : current_pos + end_pos] + "\n"
@@ -106,6 +118,17 @@ class LatexPreamble:
                     current_pos += end_pos
                     continue
 
+            if NEW_ENVIRONMENT_PATTERN.match(content[current_pos:]):
+                token, end_pos = self.environment_handler.handle_newenvironment(
+                    content[current_pos:]
+                )
+                if token:
+                    output_preamble += (
+                        content[current_pos : current_pos + end_pos] + "\n"
+                    )
+                    current_pos += end_pos
+                    continue
+
             # Expand commands using command_manager instead of command_processor
             if self.new_definition_handler.can_handle(content[current_pos:]):
                 token, end_pos = self.new_definition_handler.handle(
-- 
2.43.0


From 135c02d971c8a7f2f73849823c8ebe81a4a4946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:52 +0000
Subject: [PATCH 082/132] fix: switches, release dates, options and files of
 local packages

---
 latex2json/parser/patterns.py         | 13 +++++---
 latex2json/parser/sty_parser.py       | 46 ++++++++++++++++++++++++---
 latex2json/parser/tex_parser.py       |  5 +++
 latex2json/parser/tex_preprocessor.py |  6 ++++
 4 files changed, 61 insertions(+), 9 deletions(-)

diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 1de8263..9755f90 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -25,17 +25,22 @@ DELIM_PATTERN = re.compile(
     r"(?<!\\)(?:\\\\|\$|%|(?:^|[ \t])\{|\s{|{}|\\(?![$%&_#{}\\]))"
 )
 
+# date after the name of a package or class e.g. \usepackage{pkg}[2020/01/01]
+RELEASE_DATE_PATTERN = r"(?:[ \t]*\[[^\]]*\])?"
+
 DOCUMENTCLASS_PATTERN = re.compile(
-    r"\\documentclass\s*%s\s*%s" % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN),
+    r"\\documentclass\s*%s\s*%s%s"
+    % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN, RELEASE_DATE_PATTERN),
     re.DOTALL,
 )
 USEPACKAGE_PATTERN = re.compile(
-    r"\\(?:usepackage|RequirePackage)\s*%s\s*%s"
-    % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN),
+    r"\\(?:usepackage|RequirePackage(?:WithOptions)?)\s*%s\s*%s%s"
+    % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN, RELEASE_DATE_PATTERN),
     re.DOTALL,
 )
 LOADCLASS_PATTERN = re.compile(
-    r"\\LoadClass\s*%s\s*%s" % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN),
+    r"\\LoadClass(?:WithOptions)?\s*%s\s*%s%s"
+    % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN, RELEASE_DATE_PATTERN),
     re.DOTALL,
 )
 
diff --git a/latex2json/parser/sty_parser.py b/latex2json/parser/sty_parser.py
index 02a194e..e36c7af 100644
--- a/latex2json/parser/sty_parser.py
+++ b/latex2json/parser/sty_parser.py
@@ -33,6 +33,9 @@ from latex2json.parser.handlers.command_manager import CommandManager
 
 INCLUDE_PATTERN = re.compile(r"\\input\s*\{([^}]+)\}", re.DOTALL)
 
+# code of an option, that counts only if the option is given
+DECLARE_OPTION_PATTERN = re.compile(r"\\DeclareOption\s*(?:\*|\{[^{}]*\})\s*(?=\{)")
+
 AT_BEGIN_DOC_PATTERN = re.compile(r"\\AtBeginDocument\s*{", re.IGNORECASE)
 
 
@@ -42,6 +45,8 @@ class LatexStyParser:
         self.logger = logger or logging.getLogger(__name__)
 
         self.current_file_dir = None
+        # folder of the document, which packages may be relative to as well
+        self.document_dir = None
         self.parsed_files = set()
 
         self.command_manager = CommandManager(
@@ -53,6 +58,7 @@ class LatexStyParser:
 
     def clear(self):
         self.current_file_dir = None
+        self.document_dir = None
         self.parsed_files.clear()
         self.if_else_block_handler.clear()
         self.command_manager.clear()
@@ -77,12 +83,13 @@ class LatexStyParser:
         tokens = []
         for package_name in package_names:
             package_path = package_name.strip()
-            if self.current_file_dir:
-                package_path = os.path.join(self.current_file_dir, package_path)
             if not package_path.endswith(extension):
                 package_path += extension
-            if os.path.exists(package_path):
-                tokens.extend(self.parse_file(package_path))
+            for folder in (self.current_file_dir, self.document_dir):
+                path = os.path.join(folder, package_path) if folder else package_path
+                if os.path.exists(path):
+                    tokens.extend(self.parse_file(path, extension))
+                    break
         return tokens
 
     def _check_usepackage(self, content: str) -> Tuple[List[Dict], int]:
@@ -91,11 +98,20 @@ class LatexStyParser:
         Returns:
             tuple: (list of tokens from sty files, end_position)
         """
-        match = USEPACKAGE_PATTERN.match(content) or INCLUDE_PATTERN.match(content)
+        match = USEPACKAGE_PATTERN.match(content)
         if match:
             package_names = match.group(1).strip()
             tokens = self._parse_packages(package_names.split(","))
             return tokens, match.end()
+        match = INCLUDE_PATTERN.match(content)
+        if match:
+            name = match.group(1).strip()
+            tokens = []
+            for extension in (os.path.splitext(name)[1], ".tex", ".sty"):
+                tokens = self._parse_packages([name], extension)
+                if tokens:
+                    break
+            return tokens, match.end()
         return [], 0
 
     def _check_loadclass(self, content: str) -> Tuple[List[Dict], int]:
@@ -213,6 +229,26 @@ class LatexStyParser:
                     )
                     continue
 
+            match = DECLARE_OPTION_PATTERN.match(content[current_pos:])
+            if match:
+                start_pos = current_pos + match.end()
+                code, end_pos = extract_nested_content(content[start_pos:])
+                if code is not None:
+                    # take its definitions, but not its settings of switches
+                    switches = dict(self.if_else_block_handler.switches)
+                    tokens.extend(t for t in self.parse(code) if t["type"] != "switch")
+                    self.if_else_block_handler.switches.update(switches)
+                    current_pos = start_pos + end_pos
+                    continue
+
+            # follow the switches
+            end_pos = self.if_else_block_handler.process_switch(content[current_pos:])
+            if end_pos > 0:
+                setting = content[current_pos : current_pos + end_pos]
+                tokens.append({"type": "switch", "name": setting, "content": setting})
+                current_pos += end_pos
+                continue
+
             # check for user defined commands (important to check before new definitions in case of floating \csname)
             if self.command_manager.can_handle(content[current_pos:]):
                 text, end_pos = self.command_manager.handle(content[current_pos:])
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 223c0d5..cdce5a1 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -292,6 +292,11 @@ class LatexParser:
             elif typing == "newtheorem":
                 self.env_handler.process_newtheorem(cmd_name, token["title"])
 
+            # setting of a switch in a package
+            if typing == "switch":
+                self.if_else_block_handler.process_switch(token["content"])
+                return
+
             # Special handling for if blocks
             if typing == "newif":
                 self.if_else_block_handler.process_newif(cmd_name)
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 9bcc8d2..8d01110 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -132,6 +132,11 @@ class LatexPreprocessor:
             # Process the token using command_manager instead of directly
             token_type = token.get("type", "")
 
+            # setting of a switch in a package
+            if token_type == "switch":
+                self.if_else_block_handler.process_switch(token["content"])
+                return
+
             # Special handling for "newif" to maintain compatibility with if_else_block_handler
             if token_type == "newif":
                 self.if_else_block_handler.process_newif(cmd_name)
@@ -176,6 +181,7 @@ class LatexPreprocessor:
         self, package_names: list[str], file_dir: str = None, extension=".sty"
     ) -> list[Dict]:
         tokens = []
+        self.sty_parser.document_dir = file_dir
         for package_name in package_names:
             package_path = package_name.strip()
             if file_dir:
-- 
2.43.0


From 5b000450dea9efa662073d0328441eaea68f735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:43 +0000
Subject: [PATCH 083/132] fix: environments that use themselves, arguments
 after spaces, theorem titles, stars and spaces

---
 latex2json/parser/handlers/environment.py    | 83 ++++++++++++++++----
 latex2json/parser/handlers/new_definition.py |  9 ++-
 latex2json/parser/tex_parser.py              | 10 ++-
 latex2json/structure/tokens/base.py          |  2 +
 4 files changed, 86 insertions(+), 18 deletions(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index e818270..8b20522 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -1,5 +1,5 @@
 import re
-from typing import Callable, Dict, List, Optional, Tuple
+from typing import Callable, Dict, List, Optional, Set, Tuple
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.utils.tex_utils import (
     extract_args,
@@ -197,16 +197,21 @@ class BaseEnvironmentHandler(TokenHandler):
         super().__init__(**kwargs)
         self.logger = logger or logging.getLogger(__name__)
         self._newtheorems: Dict[str, str] = {}
+        self._unnumbered_theorems: Set[str] = set()
         self._floatnames: Dict[str, str] = {}
 
-    def process_newtheorem(self, var_name: str, title: str):
+    def process_newtheorem(self, var_name: str, title: str, numbered: bool = True):
         self._newtheorems[var_name] = title
+        self._unnumbered_theorems.discard(var_name)
+        if not numbered:
+            self._unnumbered_theorems.add(var_name)
 
     def process_floatname(self, var_name: str, title: str):
         self._floatnames[var_name] = title
 
     def clear(self):
         self._newtheorems = {}
+        self._unnumbered_theorems = set()
         self._floatnames = {}
 
     def can_handle(self, content: str) -> bool:
@@ -220,6 +225,8 @@ class BaseEnvironmentHandler(TokenHandler):
         contains_asterisk = "*" in env_name
         env_name = env_name.replace("*", "")
 
+        is_newtheorem = env_name in self._newtheorems
+        is_unnumbered = contains_asterisk or env_name in self._unnumbered_theorems
         env_name = self._newtheorems.get(env_name, env_name)
         token = {
             "type": "environment",
@@ -230,7 +237,7 @@ class BaseEnvironmentHandler(TokenHandler):
         token["type"] = env_type
 
         # ignore numbering of subfigures/tables?
-        if env_type == "math_env" and not contains_asterisk:
+        if env_type == "math_env" and not is_unnumbered:
             if env_name.lower() in NUMBERED_MATH_ENVIRONMENTS:
                 token["numbered"] = True
         elif env_type in ["table", "figure", "algorithm"] and not env_name.startswith(
@@ -244,7 +251,7 @@ class BaseEnvironmentHandler(TokenHandler):
         if end_pos > 0:
             inner_content = inner_content[end_pos:]
             opt_found = True
-        if title and env_type == "math_env":
+        if title and (env_type == "math_env" or is_newtheorem):
             token["title"] = title
 
         # Extract arguments based on environment type
@@ -401,12 +408,46 @@ class BaseEnvironmentHandler(TokenHandler):
         return env_match if env_match.start() < group_match.start() else group_match
 
 
+# environment used in the definition of another one e.g. \begin{quote} or \quote
+USED_ENVIRONMENT_PATTERN = re.compile(r"\\begin\s*\{([^{}]*)\}|\\([a-zA-Z@]+)")
+
+
 class EnvironmentProcessor:
-    def __init__(self):
+    # an environment that holds itself more often than that is not expanded anymore
+    MAX_NESTING = 12
+
+    def __init__(self, logger=None):
+        self.logger = logger or logging.getLogger(__name__)
         self.environments: Dict[str, Dict[str, any]] = {}
+        # environments around the current content
+        self.active: List[str] = []
+        # expands the commands of a definition
+        self.expand_fn: Optional[Callable[[str], str]] = None
 
     def clear(self):
         self.environments = {}
+        self.active = []
+
+    def _is_recursive(self, env_name: str, begin_def: str, end_def: str) -> bool:
+        """Check if the definition uses the environment itself, directly or through others"""
+        seen = set()
+        pending = [begin_def + " " + end_def]
+        while pending:
+            text = pending.pop()
+            if self.expand_fn:
+                text = self.expand_fn(text)
+            for match in USED_ENVIRONMENT_PATTERN.finditer(text):
+                used = (match.group(1) or match.group(2) or "").strip()
+                if match.group(2) and "\\end" + used not in text:
+                    # just a command
+                    continue
+                if used == env_name:
+                    return True
+                if used in self.environments and used not in seen:
+                    seen.add(used)
+                    env = self.environments[used]
+                    pending.append(env["begin_def"] + " " + env["end_def"])
+        return False
 
     def process_environment_definition(
         self,
@@ -417,6 +458,13 @@ class EnvironmentProcessor:
         optional_args: Optional[List[str]] = None,
     ) -> None:
         """Store a new or renewed environment definition"""
+        if self._is_recursive(env_name, begin_def, end_def):
+            # e.g. \renewenvironment{quote}{\oldquote\small}{\endoldquote}: keep its meaning
+            self.logger.warning(
+                f"Potential recursion detected for newenvironment: {env_name}, skipping..."
+            )
+            return
+
         environment = {
             "name": env_name,
             "begin_def": begin_def,
@@ -440,7 +488,10 @@ class EnvironmentProcessor:
         Returns:
             The processed content with the environment expanded
         """
-        if self.has_environment(env_name):
+        if (
+            self.has_environment(env_name)
+            and self.active.count(env_name) < self.MAX_NESTING
+        ):
             env_info = self.environments[env_name]
 
             # Extract arguments and content
@@ -450,19 +501,21 @@ class EnvironmentProcessor:
             # Handle optional arguments [arg]
             num_req_args = env_info["num_args"] - len(env_info["optional_args"])
             for opt_arg in env_info["optional_args"]:
-                if content.startswith("["):
-                    arg, end_pos = extract_nested_content(content, "[", "]")
-                    content = content[end_pos:]
-                    args.append(arg)
+                block = content.lstrip()
+                if block.startswith("["):
+                    arg, end_pos = extract_nested_content(block, "[", "]")
+                    content = block[end_pos:]
+                    args.append(arg or "")
                 else:
                     args.append(opt_arg)
 
             # Handle required arguments {arg}
             for _ in range(num_req_args):
-                if content.startswith("{"):
-                    arg, end_pos = extract_nested_content(content, "{", "}")
-                    content = content[end_pos:]
-                    args.append(arg)
+                block = content.lstrip()
+                if block.startswith("{"):
+                    arg, end_pos = extract_nested_content(block, "{", "}")
+                    content = block[end_pos:]
+                    args.append(arg or "")
                 else:
                     args.append("")  # Empty string for missing required args
 
@@ -481,7 +534,7 @@ class EnvironmentProcessor:
 class EnvironmentHandler(BaseEnvironmentHandler):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
-        self.environment_processor = EnvironmentProcessor()
+        self.environment_processor = EnvironmentProcessor(logger=self.logger)
 
     @property
     def environments(self):
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 63de24f..e63cc75 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -79,7 +79,8 @@ PATTERNS = {
     "@namedef": re.compile(r"\\@namedef\s*{([^}]*)}"),
     # Matches newtheorem with all its optional arguments
     "newtheorem": re.compile(
-        r"\\newtheorem\*?{([^}]*)}(?:\[([^]]*)\])?{([^}]*)}(?:\[([^]]*)\])?", re.DOTALL
+        r"\\newtheorem\s*\*?\s*{([^}]*)}\s*(?:\[([^]]*)\]\s*)?{((?:[^{}]|{[^{}]*})*)}(?:[ \t]*\[([^]]*)\])?",
+        re.DOTALL,
     ),
     "newtheoremstyle": re.compile(r"\\newtheoremstyle\*?{", re.DOTALL),
     "crefname": re.compile(r"\\[cC]refname{([^}]*)}{([^}]*)}(?:{([^}]*)})?", re.DOTALL),
@@ -417,11 +418,15 @@ class NewDefinitionHandler(TokenHandler):
 
     def _handle_newtheorem(self, match) -> Tuple[Optional[Dict], int]:
         """Handle \newtheorem definitions"""
-        token = {"type": "newtheorem", "name": match.group(1), "title": match.group(3)}
+        # e.g. {\bf Theorem}
+        title = re.sub(r"\\[a-zA-Z@]+\s*|[{}]", "", match.group(3)).strip()
+        token = {"type": "newtheorem", "name": match.group(1), "title": title}
 
         # Handle optional counter specification
         if match.group(2):
             token["counter"] = match.group(2)
+        elif match.group(0)[len("\\newtheorem") :].lstrip().startswith("*"):
+            token["unnumbered"] = True
 
         # Handle optional numbering within
         if match.group(4):
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index cdce5a1..fdd3580 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -79,6 +79,9 @@ class LatexParser:
             logger=self.logger, process_content_fn=self.parse
         )
         self.env_handler = EnvironmentHandler(logger=self.logger)
+        self.env_handler.environment_processor.expand_fn = (
+            lambda text: self.command_manager.expand_commands(text, True)[0]
+        )
 
         self.legacy_formatting_handler = LegacyFormattingHandler()
         self.if_else_block_handler = IfElseBlockHandler(logger=self.logger)
@@ -290,7 +293,9 @@ class LatexParser:
                 self.env_handler.process_floatname(cmd_name, token["title"])
                 return
             elif typing == "newtheorem":
-                self.env_handler.process_newtheorem(cmd_name, token["title"])
+                self.env_handler.process_newtheorem(
+                    cmd_name, token["title"], not token.get("unnumbered")
+                )
 
             # setting of a switch in a package
             if typing == "switch":
@@ -446,7 +451,10 @@ class LatexParser:
                 ]:
                     prev_env = self.current_env
                     self.current_env = token
+                    active = self.env_handler.environment_processor.active
+                    active.append(token.get("name"))
                     token["content"] = self.parse(token["content"])
+                    active.pop()
                     self.current_env = prev_env
 
                 if "title" in token and isinstance(token["title"], str):
diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index a8724ce..719a426 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -62,6 +62,8 @@ class EnvironmentToken(BaseToken):
 
     type: TokenType = TokenType.ENVIRONMENT
     name: Optional[str] = None
+    # of a theorem-like environment e.g. \newtheorem{op}{Open Problem} \begin{op}[title]
+    title: Optional[List[BaseToken]] = None
 
 
 class MathEnvToken(BaseToken):
-- 
2.43.0


From 5da500ecb6b74afb36108260db07e566b9701965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:16 +0000
Subject: [PATCH 084/132] fix: optional arguments of addresses, current
 addresses, \and inside of notes, protected content

---
 latex2json/parser/handlers/author.py     | 31 ++++++++++++++++++------
 latex2json/parser/handlers/formatting.py |  8 +++++-
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/latex2json/parser/handlers/author.py b/latex2json/parser/handlers/author.py
index 364045b..7933319 100644
--- a/latex2json/parser/handlers/author.py
+++ b/latex2json/parser/handlers/author.py
@@ -4,7 +4,10 @@ import re
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.utils.tex_utils import extract_nested_content
 
-AND_PATTERN = re.compile(r"\\and\b", re.IGNORECASE)
+AND_PATTERN = re.compile(r"\\and(?![a-zA-Z@])", re.IGNORECASE)
+AND_OR_BRACE_PATTERN = re.compile(
+    r"(?P<and>%s)|(?P<brace>[{}])|\\." % AND_PATTERN.pattern, re.IGNORECASE | re.DOTALL
+)
 BACKSLASH_PATTERN = re.compile(r"\\\\")
 
 compile_as = re.DOTALL | re.IGNORECASE
@@ -12,12 +15,12 @@ compile_as = re.DOTALL | re.IGNORECASE
 PATTERNS = {
     "author": re.compile(r"\\author(?:\s*\[(.*?)\])?\s*{", compile_as),
     # "correspondingauthor": re.compile(r"\\correspondingauthor\s*{", compile_as),
-    "email": re.compile(r"\\email\s*{", compile_as),
+    "email": re.compile(r"\\email(?:\s*\[(.*?)\])?\s*{", compile_as),
     "affiliation": re.compile(
         r"\\(?:affil|affiliation)(?:\s*\[(.*?)\])?\s*{", compile_as
     ),
-    "address": re.compile(r"\\address\s*{", compile_as),
-    "curraddr": re.compile(r"\\curraddr(?:\{\}|\b)"),
+    "address": re.compile(r"\\address(?:\s*\[(.*?)\])?\s*{", compile_as),
+    "curraddr": re.compile(r"\\curraddr(?:(?:\s*\[[^\]]*\])?\s*\{|\b)"),
     # \thanks usually found inside author block
     "thanks": re.compile(r"\\thanks\s*{", compile_as),
 }
@@ -38,8 +41,16 @@ class AuthorHandler(TokenHandler):
 
     def _parse_author_content(self, content: str) -> Tuple[List[str], int]:
         authors = []
-        # First split by \and
-        and_parts = AND_PATTERN.split(content)
+        # First split by \and (but not at one inside of braces e.g. of a note)
+        and_parts = []
+        depth = start = 0
+        for match in AND_OR_BRACE_PATTERN.finditer(content):
+            if match.group("brace"):
+                depth += 1 if match.group("brace") == "{" else -1
+            elif match.group("and") and depth <= 0:
+                and_parts.append(content[start : match.start()])
+                start = match.end()
+        and_parts.append(content[start:])
 
         # Then process each part for possible \\ separators
         for part in and_parts:
@@ -69,6 +80,8 @@ class AuthorHandler(TokenHandler):
         for name, pattern in PATTERNS.items():
             match = pattern.match(content)
             if match:
+                if name == "curraddr" and not match.group(0).endswith("{"):
+                    return None, match.end()
                 start_pos = match.end() - 1
                 content, end_pos = extract_nested_content(content[start_pos:])
                 if content is None:
@@ -91,9 +104,11 @@ class AuthorHandler(TokenHandler):
                         "type": "author",
                         "content": tokens,
                     }, total_pos
-                elif name == "curraddr":
-                    return None, match.end()
                 else:
+                    if name == "curraddr":
+                        if not content.strip():
+                            return None, total_pos
+                        name = "address"
                     if self.process_content_fn:
                         content = self.process_content_fn(content)
 
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 8cfc15b..38ea36e 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -229,7 +229,13 @@ RAW_PATTERNS = OrderedDict(
             % number_regex,
         ),
         ("paper", r"\\(?:paperwidth|paperheight)(?![a-zA-Z@])(?:\s*=\s*%s(?:\w+)?)?" % number_regex),
-        ("protect", r"\\protect\\[a-zA-Z]+(?:\s*(?:\[[^\]]*\]|\{[^}]*\})*)?"),
+        (
+            "protect",
+            # content is kept, all other commands are dropped with their arguments
+            r"\\protect\s*(?=\\(?:cite(?:t|p|alt|alp|author|year|yearpar)?|[a-zA-Z]*ref|text[a-z]+|emph|underline|footnote|footnotemark|url|href|label|mbox)(?![a-zA-Z@]))"
+            + r"|\\protect\\[a-zA-Z]+(?:\s*(?:\[[^\]]*\]|\{[^}]*\})*)?"
+            + r"|\\protect(?![a-zA-Z@])",
+        ),
         (
             "counters",
             r"\\c@page\b|\\(?:counterwithin|counterwithout)\s*\{[^}]*}\s*\{[^}]*\}|\\refstepcounter{[^}]+}|\\@addtoreset\s*\{[^}]*\}\s*\{[^}]*\}",
-- 
2.43.0


From b6b8fb247b0045757064ae842d275af3b04e1637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:16 +0000
Subject: [PATCH 085/132] fix: optional arguments of unknown commands, spaces
 in their names

---
 latex2json/parser/tex_parser.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index fdd3580..1f9065c 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -51,7 +51,11 @@ DOCUMENT_PATTERN = re.compile(
     r"\\(?:documentclass|documentstyle)(?![a-zA-Z@])|\\begin\s*\{document\}"
 )
 
-UNKNOWN_COMMAND_PATTERN = re.compile(r"(\\[@a-zA-Z\*]+(?:\s*{)?)")
+# optional arguments belong to the command if a braced argument follows them
+UNKNOWN_COMMAND_PATTERN = re.compile(
+    r"(?P<name>\\[@a-zA-Z\*]+)(?:(?P<opt>(?:\[(?:[^\[\]{}\\]|\\.|\{[^{}]*\})*\])+(?={)|\s*){)?",
+    re.DOTALL,
+)
 
 
 class LatexParser:
@@ -234,26 +238,23 @@ class LatexParser:
         # Get the full matched text to preserve all arguments
         match = UNKNOWN_COMMAND_PATTERN.match(content)
         if match:
-            command = match.group(0)
+            command = match.group("name")
             end_pos = match.end()
-
-            inner_content = None
             total_content = command
-            if command.endswith("{"):
-                command = command[:-1]
-                symbol = self._expand_command(command.rstrip())
+            if match.group(0).endswith("{"):
+                symbol = self._expand_command(command)
                 if not symbol.startswith("\\"):
                     # a symbol takes no arguments, what follows is a group of its own
-                    return {"type": "text", "content": symbol}, len(command.rstrip())
+                    return {"type": "text", "content": symbol}, len(command)
                 inner_content, inner_end_pos = extract_nested_content(
                     content[end_pos - 1 :]
                 )
-                end_pos += inner_end_pos - 1
                 if inner_content is None:
                     # unclosed brace, leave it to the remaining content
-                    total_content = command
+                    end_pos = match.end("name")
                 else:
-                    total_content += inner_content + "}"
+                    end_pos += inner_end_pos - 1
+                    total_content += match.group("opt").strip() + "{" + inner_content + "}"
 
             expanded = self._expand_command(total_content)
 
-- 
2.43.0


From 9eeedb216293342c7f18ea1b993168a23ad30d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:09 +0000
Subject: [PATCH 086/132] fix: options of unknown commands in tables

---
 latex2json/parser/tex_parser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 1f9065c..24dc422 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -741,6 +741,16 @@ class LatexParser:
                                 f"*****(Again) Unknown command token: {token}*****"
                             )
                     continue
+            else:
+                match = UNKNOWN_COMMAND_PATTERN.match(content[current_pos:])
+                if match and match.group("opt"):
+                    # the cells are parsed in full later on
+                    end_pos = match.end("opt")
+                    self.add_token(
+                        content[current_pos : current_pos + end_pos], tokens, add_space
+                    )
+                    current_pos += end_pos
+                    continue
 
             self.add_token(content[current_pos], tokens, add_space)
             current_pos += 1
-- 
2.43.0


From 9bcbfc59082f458695e939903455c98a6761ed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:01 +0000
Subject: [PATCH 087/132] fix: arguments of layout commands (glue, assigned
 lengths, options of breaks and rules, nested braces)

---
 .../parser/handlers/command_processor.py      |  8 ++-
 latex2json/parser/handlers/formatting.py      | 70 +++++++++++++------
 latex2json/parser/handlers/new_definition.py  |  3 +-
 latex2json/parser/packages/titlesec.py        |  7 +-
 latex2json/parser/patterns.py                 | 19 +++++
 5 files changed, 81 insertions(+), 26 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index e60ccb1..8e60bdc 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -4,7 +4,7 @@ import re
 from typing import List, Dict, Optional, TypedDict, Callable, Pattern, Tuple
 from latex2json.latex_maps.latex_unicode_converter import LatexUnicodeConverter
 
-# from latex2json.parser.patterns import command_or_dim
+from latex2json.parser.patterns import ASSIGNED_LENGTH, NUMBER_UNIT
 from latex2json.parser.handlers.if_else_statements import IfElseBlockHandler
 from latex2json.utils.tex_utils import (
     extract_nested_content_sequence_blocks,
@@ -411,8 +411,12 @@ class CommandProcessor:
         self.commands["newtoks:" + var_name] = command
 
     def process_newX(self, var_name: str, type: str = "newX"):
+        # drop what is assigned to it too e.g. \foo=2pt
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + re.escape(var_name) + r"\b"),
+            "pattern": re.compile(
+                r"\\%s(?![a-zA-Z@])(?:(?=\s*(?:=|[-+]?\s*%s))%s|\s*=\s*[-+]?\d+)?"
+                % (re.escape(var_name), NUMBER_UNIT, ASSIGNED_LENGTH)
+            ),
             "handler": default_ignore_handler,
         }
         self.commands[type + ":" + var_name] = command
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 38ea36e..4049a99 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -7,6 +7,10 @@ from latex2json.parser.patterns import (
     NUMBER_PATTERN,
     OPTIONAL_BRACE_PATTERN,
     BRACE_CONTENT_PATTERN,
+    DIMEN,
+    LENGTH_COMMAND,
+    SKIP_AMOUNT,
+    ASSIGNED_LENGTH,
     number_points_suffix,
     command_with_opt_brace_pattern,
 )
@@ -28,6 +32,11 @@ COLOR_CELLS_PATTERN = re.compile(
 
 number_regex = NUMBER_PATTERN
 
+# optional argument of page and line breaks e.g. \pagebreak[3]
+BREAK_OPTION = r"(?:[ \t]*\[\s*\d\s*\])?"
+# braces with one more level of braces inside
+NESTED_BRACES = r"\{(?:[^{}]|\{[^{}]*\})*\}"
+
 declare_pattern_N_blocks = {
     "DeclareFontFamily": 3,
     "DeclareFontShape": 6,
@@ -75,17 +84,22 @@ RAW_PATTERNS = OrderedDict(
         ("titlecontents", r"\\titlecontents\s*{"),
         ("contents", r"\\(?:contentspage|startcontents)\b"),
         ("printcontents", r"\\printcontents\s*{"),
+        (
+            "nopagebreak",
+            r"\\(?:allowdisplaybreaks|nopagebreak)(?![a-zA-Z@])" + BREAK_OPTION,
+        ),
         (
             "page",
-            r"\\enlargethispage\s*\{[^}]*\}|\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|allowdisplaybreaks|samepage|thepage|noindent|par|clearpage|cleardoublepage|nopagebreak|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)\b",
+            r"\\enlargethispage\*?\s*\{[^}]*\}|\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|samepage|thepage|noindent|par|clearpage|cleardoublepage|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)\b",
         ),
         (
             "pagebreak",
-            r"\\(?:pagebreak|filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)\b|\\linebreak(?![a-zA-Z])(?:\[\d+\])?",
+            r"\\(?:filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)\b|\\(?:pagebreak|linebreak)(?![a-zA-Z@])"
+            + BREAK_OPTION,
         ),
         (
             "vskip",
-            r"\\vskip\s*(?:" + number_regex + r"\w+\b|-?\\[@a-zA-Z]+|\b)",
+            r"\\vskip(?:" + SKIP_AMOUNT + r"|\s*(?:" + number_regex + r"\w+\b|\b))",
         ),
         (
             "penalty",
@@ -95,7 +109,8 @@ RAW_PATTERNS = OrderedDict(
         ),
         (
             "skip",
-            r"\\(?:bigskip|medskip|smallskip|lastskip|unskip|(above|below)(display|caption)(short)?skip)\b",
+            r"\\(?:bigskip|medskip|smallskip|lastskip|unskip)\b|\\(?:above|below)(?:display|caption)(?:short)?skip(?![a-zA-Z@])(?:%s)?"
+            % ASSIGNED_LENGTH,
         ),
         (
             "style",
@@ -118,28 +133,31 @@ RAW_PATTERNS = OrderedDict(
         # New margin and size commands allowing any characters after the number
         (
             "margins",
-            r"\\(?:rightmargin|leftmargin)\b|"
+            r"\\(?:rightmargin|leftmargin)\b(?:%s)?|" % ASSIGNED_LENGTH
             + r"\\(?:topmargin|oddsidemargin|evensidemargin|textwidth|textheight|skip|footskip|headheight|headsep|footnotesep|marginparsep|marginparwidth|parindent|itemindent|parskip|vfuzz|hfuzz|hoffset|voffset)(?![a-zA-Z@])"
-            + r"\s*(\=?\s*(?:%s))?" % (number_points_suffix),
+            + r"(?:%s|\s*=?\s*%s)?" % (ASSIGNED_LENGTH, number_points_suffix),
         ),
         ("indent", r"\\indent\b"),
         (
             "lineskip",
-            r"\\lineskip\s*%s" % (number_points_suffix)
-            + r"|(%s)?\\baselineskip(?![a-zA-Z@])(?:\s*%s)?" % (number_regex, number_points_suffix),
+            r"\\lineskip(?:%s|\s*%s)" % (ASSIGNED_LENGTH, number_points_suffix)
+            + r"|(%s)?\\baselineskip(?![a-zA-Z@])(?:%s|\s*%s)?"
+            % (number_regex, ASSIGNED_LENGTH, number_points_suffix),
         ),
         # width
         (
             "width",
-            r"\\(?:linewidth|columnwidth|textwidth|hsize|labelwidth)\b",
+            r"\\(?:linewidth|columnwidth|textwidth|hsize|labelwidth)\b(?:%s)?"
+            % ASSIGNED_LENGTH,
         ),
         # spacing
         (
             "spacing",
             r"\\(?:"
             r"(?:quad|qquad|xspace|space)(?![a-zA-Z@])|,|;|:|\!|"  # \quad, \qquad, \, \; \:
-            r"hspace\*?\s*{([^}]+)}|"  # \hspace{length}
-            r"hskip\s*%s" % (number_points_suffix)  # \hskip 10pt
+            r"hspace\*?\s*%s|"  # \hspace{length}
+            r"hskip(?:%s|\s*%s)"  # \hskip 10pt
+            % (NESTED_BRACES, SKIP_AMOUNT, number_points_suffix)
             + r"|linespread\s*\{[^}]*\}"  # Added \linespread{...}
             r")",
         ),
@@ -148,7 +166,11 @@ RAW_PATTERNS = OrderedDict(
             r"\\mathtoolsset\s*%s" % (BRACE_CONTENT_PATTERN),
         ),
         # \kern, which is technically spacing but more like a length between characters. so ignore
-        ("kern", r"\\kern\s*%s" % (number_points_suffix)),
+        (
+            "kern",
+            r"\\kern\s*(?:%s|[-+]?\s*%s|%s)"
+            % (DIMEN, LENGTH_COMMAND, number_points_suffix),
+        ),
         # tcb
         ("tcb", r"\\(?:tcbset|tcbuselibrary)\s*{"),
         # options
@@ -193,7 +215,10 @@ RAW_PATTERNS = OrderedDict(
             ),
         ),
         # separators
-        ("itemsep", r"\\itemsep\s*(=\s*)?-?\d*\.?\d+\w+?\b"),
+        (
+            "itemsep",
+            r"\\itemsep(?:%s|\s*(=\s*)?-?\d*\.?\d+\w+?\b)" % ASSIGNED_LENGTH,
+        ),
         (
             "separators",
             r"\\(?:"
@@ -201,8 +226,12 @@ RAW_PATTERNS = OrderedDict(
             r"center\b|"  # no args
             r"hrulefill\b|"  # no args
             r"centerline\b|"  # no args
-            r"cline\s*{([^}]+)}|"  # {n-m}
-            r"topsep\b|parsep\b|partopsep\b|"
+            r"(?:topsep|parsep|partopsep)(?![a-zA-Z@])(?:%s)?|" % ASSIGNED_LENGTH
+            + r"fboxsep(?![a-zA-Z@])%s|" % ASSIGNED_LENGTH
+            + r"tabcolsep(?![a-zA-Z@])(?:%s)?|" % ASSIGNED_LENGTH
+            + r"rule(?![a-zA-Z@])\s*(?:\[[^\]]*\]\s*)?%s\s*%s|"  # [raise]{width}{height}
+            % (NESTED_BRACES, NESTED_BRACES)
+            + r"cline\s*{([^}]+)}|"  # {n-m}
             r"labelsep(?![a-zA-Z@])\s*\{?([^\}]*)\}?|"
             + r"(?:midrule|toprule|bottomrule)(?![a-zA-Z@])%s|"
             % (OPTIONAL_BRACE_PATTERN)  # optional [trim]
@@ -211,14 +240,13 @@ RAW_PATTERNS = OrderedDict(
             r"cdashline\s*{([^}]+)}|"  # {n-m}
             r"specialrule\s*{([^}]*)}\s*{([^}]*)}\s*{([^}]*)}|"  # {height}{above}{below}
             r"addlinespace(?![a-zA-Z@])(?:\[([^\]]*)\])?|"  # optional [length]
-            r"rule\s*{[^}]*}\s*{[^}]*}|"  # \rule{width}{height}
-            r"hrule\b|"
-            r"morecmidrules\b|"  # no args
+            + r"hrule(?![a-zA-Z@])(?:\s*(?:height|width|depth)\s*%s)*|" % DIMEN
+            + r"noalign(?![a-zA-Z@])(?:\s*%s)?|"
+            % NESTED_BRACES  # rules and skips between rows
+            + r"morecmidrules\b|"  # no args
             r"fboxsep\s*{([^}]+)}|"  # {length}
             r"Xhline\s*{([^}]+)}|"  # {length}
-            r"tabcolsep\b|"
             r"colrule\b|"
-            r"noalign\b|"
             r"vline(?![a-zA-Z@])|"
             r"end(?:firsthead|head|foot|lastfoot)(?![a-zA-Z@])"
             r")",
@@ -247,7 +275,7 @@ RAW_PATTERNS = OrderedDict(
         ("stackmath", r"\\stackMath\b"),
         ("hyphenation", r"\\hyphenation\s*{"),
         # Handle vspace separately
-        ("vspace", r"\\vspace\*?\s*{[^}]*}"),
+        ("vspace", r"\\vspace\*?\s*%s" % NESTED_BRACES),
         ("phantom", r"\\(?:hphantom|vphantom|phantom)\s*{"),
         (
             "raise",
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index e63cc75..0b3bd96 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -110,7 +110,7 @@ PATTERNS = {
     ),
     "newfam": re.compile(r"\\newfam\s*\\([^\s{[]+)"),
     "setcounter": re.compile(
-        r"\\setcounter\s*%s\s*%s" % (BRACE_CONTENT_PATTERN, BRACE_CONTENT_PATTERN),
+        r"\\setcounter\s*%s\s*\{((?:[^{}]|\{[^{}]*\})+)\}" % BRACE_CONTENT_PATTERN,
         re.DOTALL,
     ),
     "floatname": re.compile(r"\\floatname{([^}]*)}{([^}]*)}"),
@@ -281,6 +281,7 @@ class NewDefinitionHandler(TokenHandler):
     def _parse_varname_from_brace_or_backslash(
         self, var_name: str
     ) -> Tuple[Optional[str], int]:
+        var_name = var_name.strip()
         if var_name.startswith("{"):
             _var_name, _ = extract_nested_content(var_name)
             if _var_name:
diff --git a/latex2json/parser/packages/titlesec.py b/latex2json/parser/packages/titlesec.py
index f4a426c..2fec8e9 100644
--- a/latex2json/parser/packages/titlesec.py
+++ b/latex2json/parser/packages/titlesec.py
@@ -23,7 +23,7 @@ r"""
 """
 
 PATTERNS = {
-    "titleformat": re.compile(r"\\titleformat\s*{", re.DOTALL),
+    "titleformat": re.compile(r"\\titleformat(\*?)\s*{", re.DOTALL),
     "titlespacing": re.compile(r"\\titlespacing\*?\s*{", re.DOTALL),
     "titlelabel": re.compile(r"\\titlelabel\s*{", re.DOTALL),
     "titlecontents": re.compile(r"\\titlecontents\s*{", re.DOTALL),
@@ -34,7 +34,7 @@ PATTERNS = {
 }
 
 DELIMITERS = {
-    "titleformat": "{[" + "{" * 4,
+    "titleformat": "{[" + "{" * 4 + "[",
     "titlespacing": "{" * 4,
     "titlelabel": "{",
     "titleclass": "{{[",
@@ -58,6 +58,9 @@ class TitlesecHandler(TokenHandler):
             if match:
                 start_pos = match.end() - 1
                 delimiters = DELIMITERS.get(pattern_name)
+                if pattern_name == "titleformat" and match.group(1):
+                    # \titleformat*{command}{format}
+                    delimiters = "{{"
                 if delimiters:
                     # ignore?
                     args, end_pos = extract_delimited_args(
diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 9755f90..7637c6c 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -18,6 +18,25 @@ number_points_suffix = (
     NUMBER_PATTERN + r"\s*(?:pt|mm|cm|in|em|ex|sp|bp|dd|cc|nd|nc)?(?=[^a-zA-Z]|$)"
 )
 command_or_dim = rf"(?:[-+]?\s*{command_with_opt_brace_pattern}|{number_points_suffix}|{NUMBER_PATTERN}\s*[-+]?\s*{command_with_opt_brace_pattern}|{NUMBER_PATTERN})"
+# lengths e.g. 2pt, -.5\baselineskip, and glue e.g. 2pt plus 1fil minus 1pt
+NUMBER_UNIT = r"(?:\d+\.?\d*|\.\d+)\s*(?:true\s*)?(?:pt|mm|cm|in|em|ex|sp|bp|pc|dd|cc|nd|nc|mu|fil{1,3})(?![a-zA-Z])"
+LENGTH_COMMAND = r"\\(?:(?:wd|ht|dp)(?:\s*\d+|\s*\\[a-zA-Z@]+)|[a-zA-Z@]+)"
+NUMBER_COMMAND = r"(?:\d+\.?\d*|\.\d+)" + LENGTH_COMMAND
+DIMEN = r"[-+]?\s*(?:%s|%s)" % (NUMBER_UNIT, NUMBER_COMMAND)
+STRETCH = r"(?:\s*(?:\\@|(?<![a-zA-Z]))plus\s*%s)?(?:\s*(?:\\@|(?<![a-zA-Z]))minus\s*%s)?" % (
+    DIMEN,
+    DIMEN,
+)
+# amount of a skip e.g. \vskip 2pt plus 1pt, \vskip -\parskip
+SKIP_AMOUNT = r"\s*(?:%s|[-+]?\s*%s)%s" % (DIMEN, LENGTH_COMMAND, STRETCH)
+# value that is assigned to a length e.g. \parskip 2pt, \parskip=2pt plus 1pt, \parskip=\baselineskip
+ASSIGNED_LENGTH = r"(?:\s*=?\s*%s%s|\s*=\s*[-+]?\s*%s%s)" % (
+    DIMEN,
+    STRETCH,
+    LENGTH_COMMAND,
+    STRETCH,
+)
+
 # Add these compiled patterns at module level
 # match $ or % or { or } only if not preceded by \
 # Update DELIM_PATTERN to also match double backslashes and opening braces {
-- 
2.43.0


From 492aa2124befdca840955fd4103818f3defecdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:07 +0000
Subject: [PATCH 088/132] fix: values of layout commands (labelsep, escapechar,
 box and skip registers, options of contents commands)

---
 latex2json/parser/handlers/formatting.py | 19 +++++++++++--------
 latex2json/parser/packages/titlesec.py   |  6 +++---
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 4049a99..a3eb156 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -57,7 +57,7 @@ RAW_PATTERNS = OrderedDict(
         (
             "class_setup",
             re.compile(
-                r"\\(?:NeedsTeXFormat\s*\{([^}]+)\}|(?:ProvidesClass|ProvidesPackage)\s*%s\s*\[)"
+                r"\\(?:NeedsTeXFormat\s*\{([^}]+)\}(?:\s*\[[^\]]*\])?|(?:ProvidesClass|ProvidesPackage)\s*%s\s*\[)"
                 % BRACE_CONTENT_PATTERN,
                 re.DOTALL,
             ),
@@ -66,7 +66,8 @@ RAW_PATTERNS = OrderedDict(
         ("pdf", r"\\(?:pdfoutput|pdfsuppresswarningpagegroup)\s*=\s*\d+"),
         ("pdfinfo", r"\\pdfinfo\s*{"),
         # language
-        ("language", r"\\setdefaultlanguage\s*%s" % BRACE_CONTENT_PATTERN),
+        ("language", r"\\setdefaultlanguage\s*%s\s*%s"
+            % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN)),
         # Add tracing commands here
         ("tracing", r"\\(?:tracinglostchars)\s*=\s*\d+"),
         # date
@@ -82,8 +83,8 @@ RAW_PATTERNS = OrderedDict(
         ("addcontentsline", r"\\addcontentsline\s*\{[^}]*\}\s*\{[^}]*\}\s*\{[^}]*\}"),
         ("addtocontents", r"\\(?:addtocontents|addtocounter)\s*\{[^}]*\s*\}\s*{"),
         ("titlecontents", r"\\titlecontents\s*{"),
-        ("contents", r"\\(?:contentspage|startcontents)\b"),
-        ("printcontents", r"\\printcontents\s*{"),
+        ("contents", r"\\contentspage\b|\\startcontents\b(?:\s*\[[^\]]*\])?"),
+        ("printcontents", r"\\printcontents\s*(?:\[[^\]]*\]\s*)?{"),
         (
             "nopagebreak",
             r"\\(?:allowdisplaybreaks|nopagebreak)(?![a-zA-Z@])" + BREAK_OPTION,
@@ -133,7 +134,8 @@ RAW_PATTERNS = OrderedDict(
         # New margin and size commands allowing any characters after the number
         (
             "margins",
-            r"\\(?:rightmargin|leftmargin)\b(?:%s)?|" % ASSIGNED_LENGTH
+            r"\\(?:rightmargin|leftmargin)\b(?:%s)?|\\skip(?:\s*\d+|\\[a-zA-Z@]+)%s|"
+            % (ASSIGNED_LENGTH, ASSIGNED_LENGTH)
             + r"\\(?:topmargin|oddsidemargin|evensidemargin|textwidth|textheight|skip|footskip|headheight|headsep|footnotesep|marginparsep|marginparwidth|parindent|itemindent|parskip|vfuzz|hfuzz|hoffset|voffset)(?![a-zA-Z@])"
             + r"(?:%s|\s*=?\s*%s)?" % (ASSIGNED_LENGTH, number_points_suffix),
         ),
@@ -232,7 +234,7 @@ RAW_PATTERNS = OrderedDict(
             + r"rule(?![a-zA-Z@])\s*(?:\[[^\]]*\]\s*)?%s\s*%s|"  # [raise]{width}{height}
             % (NESTED_BRACES, NESTED_BRACES)
             + r"cline\s*{([^}]+)}|"  # {n-m}
-            r"labelsep(?![a-zA-Z@])\s*\{?([^\}]*)\}?|"
+            r"labelsep(?![a-zA-Z@])(?:%s|\s*\{[^}]*\})?|" % ASSIGNED_LENGTH
             + r"(?:midrule|toprule|bottomrule)(?![a-zA-Z@])%s|"
             % (OPTIONAL_BRACE_PATTERN)  # optional [trim]
             + r"cmidrule\s*(?:\(([^)]+)\)\s*)?(?:\[([^\]]*)\]\s*)?{([^}]+)}|"  # optional (lr)[trim] and {n-m}
@@ -302,11 +304,12 @@ RAW_PATTERNS = OrderedDict(
         ("physics", r"\\pacs\s*\{(.*?)\}"),
         ("Hy@", r"\\Hy@[a-zA-Z]+\s*{"),
         ("unvbox", r"\\unvbox\s*(?:%s|\\[a-zA-Z@]+\b)" % (number_regex)),
-        ("string_or_chars", r"\\string\b|\\escapechar\b"),
+        ("string_or_chars", r"\\string\b|\\escapechar\b(?:\s*=\s*(?:-?\d+|`\\?.))?"),
         (
             "dims",
             re.compile(
-                r"\\(?:wd|ht|dp)(\d+|%s)" % (command_with_opt_brace_pattern),
+                r"\\(?:wd|ht|dp)(\d+|%s)(?:(?=\s*=)%s)?"
+                % (command_with_opt_brace_pattern, ASSIGNED_LENGTH),
                 re.VERBOSE | re.DOTALL,
             ),
         ),
diff --git a/latex2json/parser/packages/titlesec.py b/latex2json/parser/packages/titlesec.py
index 2fec8e9..b55162b 100644
--- a/latex2json/parser/packages/titlesec.py
+++ b/latex2json/parser/packages/titlesec.py
@@ -26,7 +26,7 @@ PATTERNS = {
     "titleformat": re.compile(r"\\titleformat(\*?)\s*{", re.DOTALL),
     "titlespacing": re.compile(r"\\titlespacing\*?\s*{", re.DOTALL),
     "titlelabel": re.compile(r"\\titlelabel\s*{", re.DOTALL),
-    "titlecontents": re.compile(r"\\titlecontents\s*{", re.DOTALL),
+    "titlecontents": re.compile(r"\\titlecontents\*?\s*{", re.DOTALL),
     "titleline": re.compile(
         r"\\titleline\s*%s\s*{" % (OPTIONAL_BRACE_PATTERN), re.DOTALL
     ),
@@ -35,10 +35,10 @@ PATTERNS = {
 
 DELIMITERS = {
     "titleformat": "{[" + "{" * 4 + "[",
-    "titlespacing": "{" * 4,
+    "titlespacing": "{" * 4 + "[",
     "titlelabel": "{",
     "titleclass": "{{[",
-    "titlecontents": "{[" + "{" * 4,
+    "titlecontents": "{[" + "{" * 4 + "[",
     "titleline": "{",
 }
 
-- 
2.43.0


From 6ce8c4be03519ca9adacebc2923e3c5f41c872a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:07 +0000
Subject: [PATCH 089/132] fix: subfloats without caption or with a list entry,
 and roman numerals without a space

---
 latex2json/parser/handlers/text_formatting.py | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index c4f9a1b..9bd44d1 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -66,8 +66,8 @@ PATTERNS = {
     "texorpdfstring": re.compile(r"\\texorpdfstring\s*\{", re.DOTALL),
     "color": re.compile(r"\\textcolor\s*(\[\w+\])?\s*{"),
     "columns": re.compile(r"\\(?:onecolumn\b|twocolumn(?![a-zA-Z])\s*\[?)"),
-    "subfloat": re.compile(r"\\subfloat\s*\["),
-    "roman_numerals": re.compile(r"\\romannumeral\s+(\d+)"),
+    "subfloat": re.compile(r"\\subfloat\s*(?=[\[{])"),
+    "roman_numerals": re.compile(r"\\romannumeral\s*(\d+)"),
 }
 
 
@@ -259,23 +259,28 @@ class TextFormattingHandler(TokenHandler):
         return None, total_pos
 
     def _handle_subfloat(self, content: str, match: re.Match) -> Tuple[str, int]:
-        start_pos = match.end() - 1
-        caption, end_pos = extract_nested_content(content[start_pos:], "[", "]")
-        caption = caption.strip()
-
-        total_pos = start_pos + end_pos
+        # \subfloat[list entry][caption]{...}
+        total_pos = match.end()
+        captions, end_pos = extract_nested_content_sequence_blocks(
+            content[total_pos:], "[", "]", max_blocks=2
+        )
+        caption = captions[-1].strip() if captions else ""
+        total_pos += end_pos
         block, end_pos = extract_nested_content(content[total_pos:])
         if block:
             total_pos += end_pos
 
-        caption = self._process_content(caption)
-        if not isinstance(caption, list):
-            caption = [caption]
-        caption_token = {
-            "type": "caption",
-            "content": caption,
-        }
-        out_tokens = [caption_token]
+        out_tokens = []
+        if caption:
+            caption = self._process_content(caption)
+            if not isinstance(caption, list):
+                caption = [caption]
+            out_tokens.append(
+                {
+                    "type": "caption",
+                    "content": caption,
+                }
+            )
         if block:
             block = self._process_content(block)
             if not isinstance(block, list):
-- 
2.43.0


From 3c9328cf5311c51e9c306b9eb6037703df61e80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:12 +0000
Subject: [PATCH 090/132] fix: text after a \foreach loop on its line, and
 captionof with a list entry

---
 latex2json/parser/handlers/content_command.py     | 5 ++++-
 latex2json/parser/handlers/for_loop_statements.py | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 7d091d0..ebdacbc 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -35,7 +35,10 @@ RAW_PATTERNS = OrderedDict(
         ("paragraph", r"\\(?:(?:sub)*paragraph\*?)\s*%s{" % SHORT_TITLE_PATTERN),
         ("footnote", r"\\footnote\*?%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("caption", r"\\(caption|subcaption)\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
-        ("captionof", r"\\captionof\*?\s*{([^}]*?)}\s*{"),
+        (
+            "captionof",
+            r"\\captionof\*?\s*{([^}]*?)}\s*%s\s*{" % OPTIONAL_BRACE_PATTERN,
+        ),
         # input
         ("input_file", r"\\(?:input|include)\s*{"),
         ("input_file_name", r"\\input\s+([^\s{}\\]+)"),
diff --git a/latex2json/parser/handlers/for_loop_statements.py b/latex2json/parser/handlers/for_loop_statements.py
index 9caca97..15678a1 100644
--- a/latex2json/parser/handlers/for_loop_statements.py
+++ b/latex2json/parser/handlers/for_loop_statements.py
@@ -10,7 +10,11 @@ from latex2json.utils.tex_utils import extract_nested_content_sequence_blocks
 PATTERNS = OrderedDict(
     {
         "forloop": re.compile(r"\\forloop\s*\{"),
-        "foreach": re.compile(r"\\foreach\s+.+\s*\{"),
+        # the list is braced or a macro e.g. \foreach \x [count=\i] in \mylist {...}
+        "foreach_macro": re.compile(
+            r"\\foreach(?![a-zA-Z])[^{\[]*(?:\[[^\]]*\][^{\[]*?)?\bin\s*\\[a-zA-Z]+\s*\{"
+        ),
+        "foreach": re.compile(r"\\foreach(?![a-zA-Z])[^{\[]*(?:\[[^\]]*\][^{]*)?\{"),
     }
 )
 
@@ -26,7 +30,7 @@ class ForLoopHandler(TokenHandler):
         for name, pattern in PATTERNS.items():
             match = pattern.match(content)
             if match:
-                max_blocks = 4 if name == "forloop" else 2
+                max_blocks = {"forloop": 4, "foreach": 2, "foreach_macro": 1}[name]
                 start_pos = match.end() - 1  # -1 to exclude the opening brace
                 blocks, end_pos = extract_nested_content_sequence_blocks(
                     content[start_pos:], "{", "}", max_blocks=max_blocks
-- 
2.43.0


From adf6394e8dfc9a54e94c0a6d937c7543ba166cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:38 +0000
Subject: [PATCH 091/132] fix: \ensuremath keeps its math when the source is
 preprocessed

---
 latex2json/parser/tex_preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 8d01110..8cf398f 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -338,7 +338,7 @@ class LatexPreprocessor:
             if self.formatting_handler.can_handle(content[current_pos:]):
                 # comments are already stripped, so a remaining % belongs to e.g. an url
                 token, end_pos = self.formatting_handler.handle(
-                    content[current_pos:], exclude_patterns=["comment", "backslash"]
+                    content[current_pos:], exclude_patterns=["comment", "backslash", "ensuremath"]
                 )
                 if end_pos > 0:
                     block = ""
-- 
2.43.0


From 0d094bdd8ddf48d53cdcf4dd0028ff67fa78ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:38 +0000
Subject: [PATCH 092/132] fix: a space before numbers, fractions and other
 commands that give text

---
 latex2json/parser/tex_parser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 24dc422..664377d 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -58,6 +58,13 @@ UNKNOWN_COMMAND_PATTERN = re.compile(
 )
 
 
+def is_whitespace(token: str | Dict | List[Dict]) -> bool:
+    """Whether a token is text of nothing but white space e.g. a vertical space"""
+    if isinstance(token, dict) and token.get("type") == "text":
+        token = token.get("content")
+    return isinstance(token, str) and not token.strip()
+
+
 class LatexParser:
     def __init__(self, logger: logging.Logger = None):
         # for logging
@@ -511,7 +518,8 @@ class LatexParser:
                         tokens,
                         is_env_type=isinstance(handler, BaseEnvironmentHandler),
                         # keep text apart from the text before
-                        add_space=preceded_by_space and is_text,
+                        add_space=preceded_by_space
+                        and (is_text or not is_whitespace(token)),
                     )
                 return True, end_pos
         return False, 0
-- 
2.43.0


From 9a285caee4861ef68bb0b09b08f25d7929a1c1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:21 +0000
Subject: [PATCH 093/132] fix: spaces around = in the options of \num

---
 latex2json/parser/handlers/formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index a3eb156..310a91b 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -367,7 +367,7 @@ class FormattingHandler(TokenHandler):
 
             # Parse options
             if "round-precision" in options:
-                precision_match = re.search(r"round-precision=(\d+)", options)
+                precision_match = re.search(r"round-precision\s*=\s*(\d+)", options)
                 if precision_match:
                     precision = int(precision_match.group(1))
                     decimal_num = decimal.Decimal(number)
-- 
2.43.0


From 4bfb6c1ad9bbd1f79b7269957482a5cc899a89ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:21 +0000
Subject: [PATCH 094/132] fix: a space before commands that show nothing, and
 escaped characters of fractions in tables

---
 latex2json/parser/tex_parser.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 664377d..b2335ee 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -58,6 +58,12 @@ UNKNOWN_COMMAND_PATTERN = re.compile(
 )
 
 
+def get_end_of_text(tokens: List[Dict]) -> Tuple[int, int]:
+    """Identify the end of the output: number of tokens and length of the text at its end"""
+    last = tokens[-1] if tokens else {}
+    return len(tokens), len(last["content"]) if last.get("type") == "text" else 0
+
+
 def is_whitespace(token: str | Dict | List[Dict]) -> bool:
     """Whether a token is text of nothing but white space e.g. a vertical space"""
     if isinstance(token, dict) and token.get("type") == "text":
@@ -507,6 +513,11 @@ class LatexParser:
                 is_text = isinstance(
                     handler, (BoxHandler, DiacriticsHandler)
                 ) or content.startswith("\\textbackslash")
+                if isinstance(handler, TextFormattingHandler):
+                    # e.g. fractions
+                    is_text = not isinstance(token, dict) or (
+                        token["type"] == "text" and "styles" not in token
+                    )
                 if is_text and token and keep_source:
                     source = content[:end_pos]
                     self.add_token(
@@ -588,8 +599,12 @@ class LatexParser:
 
         tokens = []
         current_pos = 0
+        # end of the output at the last space
+        space_mark = None
 
         while current_pos < len(content):
+            if content[current_pos].isspace():
+                space_mark = get_end_of_text(tokens)
             # Skip whitespace
             while current_pos < len(content) and content[current_pos].isspace():
                 self.current_str += content[current_pos]
@@ -646,6 +661,9 @@ class LatexParser:
                     add_space = False
                     if current_pos > 0 and content[current_pos - 1].isspace():
                         add_space = True
+                    elif space_mark == get_end_of_text(tokens):
+                        # nothing shown since the space e.g. a label
+                        add_space = True
                     self.add_token(text, tokens, add_space)
                 current_pos += next_pos
                 if not next_delimiter:
@@ -708,7 +726,10 @@ class LatexParser:
                 content[current_pos:],
                 tokens,
                 preceded_by_space=current_pos > 0
-                and content[current_pos - 1].isspace(),
+                and (
+                    content[current_pos - 1].isspace()
+                    or space_mark == get_end_of_text(tokens)
+                ),
                 keep_source=not handle_unknown_commands,
             )
             current_pos += end_pos
-- 
2.43.0


From e9f7a043b6f1f4bd95b425a766a2612a48b945eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:04 +0000
Subject: [PATCH 095/132] fix: definitions through \csname, with prefixes such
 as \protected, \xdef and \@ifstar without braces

---
 .../parser/handlers/command_processor.py      | 10 ++++-
 .../parser/handlers/if_else_statements.py     | 23 +++++++---
 latex2json/parser/handlers/new_definition.py  | 45 ++++++++++++++++---
 latex2json/parser/tex_preprocessor.py         | 10 ++++-
 4 files changed, 75 insertions(+), 13 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 8e60bdc..9dd3f53 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -204,7 +204,7 @@ class CommandProcessor:
 
         has_ifstar = definition.startswith(r"\@ifstar")
         if has_ifstar:
-            usage_pattern += r"\*?"
+            usage_pattern = r"(?:%s)(?:\s*\*)?" % usage_pattern
             out, pos = self.if_else_handler.handle(definition)
             if out and "ifstar" in out["type"]:
                 true_block = out["if_content"] + definition[pos:]
@@ -512,6 +512,14 @@ class CommandProcessor:
                     if match:
                         out, _ = cmd["handler"](match, text)
                         return out, end_pos
+                # the name of another command e.g. made by \newcommand
+                name = "\\" + nested.lstrip()
+                usage = name + " " + text[end_pos:]
+                for cmd in self.get_command_iter(False):
+                    match = " " not in name and cmd["pattern"].match(usage)
+                    if match and match.group(0).startswith(name):
+                        out, pos = cmd["handler"](match, usage)
+                        return out, max(end_pos, end_pos + pos - len(name) - 1)
                 return "", end_pos
         return text, 0
 
diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 0c3bbdc..18cf165 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -6,11 +6,14 @@ import re
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.handlers.new_definition import extract_and_concat_nested_csname
 from latex2json.utils.tex_utils import (
+    extract_nested_content,
     extract_nested_content_sequence_blocks,
     mask_verbatim,
 )
 from latex2json.parser.patterns import command_with_opt_brace_pattern, command_or_dim
 
+COMMAND_PATTERN = re.compile(r"\s*\\(?:[a-zA-Z@]+|[^a-zA-Z@])")
+
 # Could be character, command, or more complex token
 char_or_command_pattern = r"(?:{\s*)?(?:\\[a-zA-Z@]+|\S)(?:\s*})?"
 
@@ -106,7 +109,7 @@ IF_PATTERNS_DEFAULT_LIST = OrderedDict(
         "@ifclassloaded": re.compile(r"\\@ifclassloaded\s*\{"),
         "@ifpackageloaded": re.compile(r"\\@ifpackageloaded\s*\{"),
         "@ifundefined": re.compile(r"\\@ifundefined\s*\{"),
-        "@ifstar": re.compile(r"\\@ifstar\s*\{"),
+        "@ifstar": re.compile(r"\\@ifstar\s*(?=[{\\])"),
         # a single word e.g. \iftrue, \ifpdf
         "ifword": re.compile(
             r"(?!%s)\\@?if(?!(?:x|cat|num|dim|defined|csname)(?![a-zA-Z@]))"
@@ -336,10 +339,18 @@ class IfElseBlockHandler(TokenHandler):
     def _handle_ifstar(
         self, content: str, match: re.Match
     ) -> Tuple[Optional[Dict], int]:
-        start_pos = match.end() - 1
-        blocks, end_pos = extract_nested_content_sequence_blocks(
-            content[start_pos:], "{", "}", max_blocks=2
-        )
+        # \@ifstar{...}{...} or e.g. \@ifstar\foo\bar
+        blocks = []
+        end_pos = match.end()
+        while len(blocks) < 2:
+            block, pos = extract_nested_content(content[end_pos:])
+            if block is None:
+                command = COMMAND_PATTERN.match(content, end_pos)
+                if not command:
+                    break
+                block, pos = command.group(0).strip(), command.end() - end_pos
+            blocks.append(block)
+            end_pos += pos
         if len(blocks) == 0:
             return None, 0
         if_content = blocks[0] if len(blocks) > 0 else ""
@@ -349,7 +360,7 @@ class IfElseBlockHandler(TokenHandler):
             "condition": "@ifstar",
             "if_content": if_content,
             "else_content": else_content,
-        }, start_pos + end_pos
+        }, end_pos
 
     def _handle_iffileexists(
         self, content: str, match: re.Match
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 0b3bd96..95033de 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -14,11 +14,13 @@ from latex2json.utils.tex_utils import (
 
 
 POST_NEW_COMMAND_PATTERN_STR = (
-    r"\*?\s*(?:{%s}|%s)(?:\s*\[(\d+)\])?((?:\s*\[[^]]*\])*)\s*{"
+    r"\s*\*?\s*(?:{%s}|%s)(?:\s*\[(\d+)\])?((?:\s*\[[^]]*\])*)\s*{"
     % (command_pattern, command_pattern)
 )
 
-DEF_COMMAND_PREFIX = r"(?:\\long)?\\(?:e|g|x)?def\s*\\"
+DEF_COMMAND_PREFIX = (
+    r"(?:\\(?:long|outer|protected|global)\s*)*\\(?:e|g|x)?def\s*\\"
+)
 LET_COMMAND_PREFIX = r"\\(?:future)?let\s*\\"
 
 DEF_COMMAND_PATTERN = re.compile(
@@ -41,6 +43,11 @@ START_CSNAME_PATTERN = re.compile(r"\\csname(?![a-zA-Z])")
 END_CSNAME_PATTERN = re.compile(r"\\endcsname(?![a-zA-Z])")
 
 
+# \expandafter\newcommand\csname foo\endcsname
+NEWCOMMAND_CSNAME_PATTERN = re.compile(
+    r"\s*(\\(?:(?:new|renew|provide)command|DeclareRobustCommand)\s*\*?\s*)(?=\\csname(?![a-zA-Z]))"
+)
+
 declare_pattern_N_blocks = {
     # "DeclareFontFamily": 3,
     # "DeclareFontShape": 6,
@@ -120,6 +127,7 @@ PATTERNS = {
     "definecolor": re.compile(r"\\definecolor\s*{"),
     "font": re.compile(
         r"\\font\s*\\([^\s=]+)\s*=\s*([^\s]+)(?:\s+at\s+(\d+(?:\.\d+)?)(pt|cm|mm|in|ex|em|bp|dd|pc|sp))?"
+        r"(?:\s+scaled\s*(?:\\magstep(?:half(?![a-zA-Z])|\s*\d)|\d+))?"
     ),
 }
 
@@ -224,6 +232,9 @@ class NewDefinitionHandler(TokenHandler):
                     }, match.end()
                 elif pattern_name in ["expandafter", "endcsname"]:
                     next_pos = match.end()
+                    csname_match = NEWCOMMAND_CSNAME_PATTERN.match(content, next_pos)
+                    if csname_match:
+                        return self._handle_newcommand_csname(content, csname_match)
                     token, end_pos = self.handle(content[next_pos:])
                     return token, next_pos + end_pos
                 elif pattern_name == "newcolumntype":
@@ -341,12 +352,20 @@ class NewDefinitionHandler(TokenHandler):
         }
         return token, match.end()
 
-    def _handle_let(self, content: str, match) -> Tuple[Optional[Dict], int]:
+    def _handle_let(self, source: str, match) -> Tuple[Optional[Dict], int]:
         name = match.group(1).strip()
         content = match.group(2).strip()
         # Remove optional equals sign if present
         if content.startswith("="):
             content = content[1:].strip()
+        end_pos = match.end()
+        if content == r"\csname":
+            # \expandafter\let\expandafter\foo\csname bar\endcsname
+            start_pos = end_pos - len(content)
+            inner, next_pos = extract_and_concat_nested_csname(source[start_pos:])
+            if next_pos != -1:
+                content = "\\" + inner.replace(" ", "")
+                end_pos = start_pos + next_pos
 
         usage_pattern = r"\\" + re.escape(name)
         # no lookahead for commands ending in special chars
@@ -370,7 +389,7 @@ class NewDefinitionHandler(TokenHandler):
                 "content": content,
                 "usage_pattern": usage_pattern,
             }
-        return token, match.end()
+        return token, end_pos
 
     def _handle_newcommand(self, content: str, match) -> Tuple[Optional[Dict], int]:
         r"""Handle \newcommand and \renewcommand definitions"""
@@ -417,6 +436,21 @@ class NewDefinitionHandler(TokenHandler):
 
         return token, start_pos + end_pos - 1
 
+    def _handle_newcommand_csname(
+        self, content: str, match: re.Match
+    ) -> Tuple[Optional[Dict], int]:
+        r"""Handle \expandafter\newcommand\csname foo\endcsname definitions"""
+        inner, next_pos = extract_and_concat_nested_csname(content[match.end() :])
+        if next_pos == -1:
+            return None, match.end()
+        end_pos = match.end() + next_pos
+        # convert to \newcommand{\foo}
+        search_prefix = match.group(1) + "{\\" + inner.replace(" ", "") + "}"
+        token, total_pos = self.handle(search_prefix + content[end_pos:])
+        if total_pos < len(search_prefix):
+            return None, end_pos
+        return token, end_pos + total_pos - len(search_prefix)
+
     def _handle_newtheorem(self, match) -> Tuple[Optional[Dict], int]:
         """Handle \newtheorem definitions"""
         # e.g. {\bf Theorem}
@@ -556,7 +590,8 @@ class NewDefinitionHandler(TokenHandler):
         if definition is None:
             return None, start_pos
 
-        is_edef = r"\edef" in content[: match.start(1) or match.start(2)]
+        prefix = content[: match.start(1) or match.start(2)]
+        is_edef = r"\edef" in prefix or r"\xdef" in prefix
 
         # Get command name (will be clean now, without parameters)
         cmd_name = match.group(1) or match.group(2)
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 8cf398f..48a0191 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -27,6 +27,7 @@ from latex2json.utils.tex_utils import (
 )
 from latex2json.parser.sty_parser import LatexStyParser
 from latex2json.parser.handlers.command_manager import CommandManager
+from latex2json.parser.handlers.new_definition import extract_and_concat_nested_csname
 
 
 ADD_TO_PATTERN = re.compile(r"\\addto\s*(?:{?\\[^}\s]+}?)\s*\{")  # e.g. \addto\cmd{...}
@@ -338,7 +339,8 @@ class LatexPreprocessor:
             if self.formatting_handler.can_handle(content[current_pos:]):
                 # comments are already stripped, so a remaining % belongs to e.g. an url
                 token, end_pos = self.formatting_handler.handle(
-                    content[current_pos:], exclude_patterns=["comment", "backslash", "ensuremath"]
+                    content[current_pos:],
+                    exclude_patterns=["comment", "backslash", "ensuremath"],
                 )
                 if end_pos > 0:
                     block = ""
@@ -355,6 +357,12 @@ class LatexPreprocessor:
                 current_pos += end_pos
                 continue
 
+            # the name of a macro that is left to the parser
+            csname, end_pos = extract_and_concat_nested_csname(content[current_pos:])
+            if end_pos > 0 and csname.lstrip() in deferred:
+                current_pos += end_pos
+                continue
+
             # Expand commands using command_manager instead of command_processor
             if self.command_manager.can_handle(content[current_pos:]):
                 expanded_text, end_pos = self.command_manager.handle(
-- 
2.43.0


From d2718351eb363f42af8b9b15ee82129e1b24c06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:03 +0000
Subject: [PATCH 096/132] fix: \let of a name made by \csname to another
 command

---
 latex2json/parser/handlers/new_definition.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 95033de..0599ebf 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -516,7 +516,7 @@ class NewDefinitionHandler(TokenHandler):
             expand_after_pattern = re.compile(r"\s*" + EXPAND_PATTERN.pattern)
 
             inner_csnames = []
-            while start_pos < len(content):
+            while start_pos <= len(content):
 
                 # extract inner inside \csname <INNER> \endcsname
                 if len(inner_csnames) < max_csname_blocks:
@@ -540,11 +540,14 @@ class NewDefinitionHandler(TokenHandler):
                     for inner in inner_csnames:
                         cmd_str += "\\" + inner.replace(" ", "")
 
+                if full_pattern is LET_COMMAND_PATTERN and len(inner_csnames) == 2:
+                    full_pattern = LET_CSNAME_COMMAND_PATTERN
+                    cmd_str += " "
+
                 search_prefix = prefix + cmd_str
-                if content[start_pos] == "\\":
+                # the name is the command itself, unless made by \csname
+                if content[start_pos : start_pos + 1] == "\\" and not inner_csnames:
                     start_pos += 1
-                if inner_csnames and full_pattern is LET_COMMAND_PATTERN:
-                    full_pattern = LET_CSNAME_COMMAND_PATTERN
                 search_text = search_prefix + content[start_pos:]
                 full_match = full_pattern.match(search_text)
                 if full_match:
@@ -572,7 +575,7 @@ class NewDefinitionHandler(TokenHandler):
                             token["usage_pattern"] + "|" + inner_csname_regex
                         )
                     total_pos = start_pos + end_pos - len(search_prefix)
-                    return token, total_pos
+                    return token, max(total_pos, start_pos)
 
                 break
 
-- 
2.43.0


From 3420273efcde9cbd50f5f21db665f1fa6e3d38a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:09 +0000
Subject: [PATCH 097/132] fix: \let of a macro with a starred form

---
 .../parser/handlers/command_processor.py      | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 9dd3f53..4291b67 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -21,6 +21,9 @@ from latex2json.parser.handlers.new_definition import (
 )
 
 
+# the star of e.g. \@ifstar macros
+STAR_PATTERN = r"(?:\s*\*)?"
+
 CSNAME_PATTERN = re.compile(
     START_CSNAME_PATTERN.pattern + r"(.*)" + END_CSNAME_PATTERN.pattern
 )
@@ -166,7 +169,11 @@ class CommandProcessor:
     def process_let(self, command_name: str, definition: str, usage_pattern: str):
         # an alias of a macro with arguments
         target = self._all_commands.get(definition[1:])
-        if definition.startswith("\\") and target and target.get("num_args"):
+        if (
+            definition.startswith("\\")
+            and target
+            and (target.get("num_args") or target.get("args_pattern"))
+        ):
             self.commands[command_name] = {
                 **target,
                 "pattern": re.compile(
@@ -204,7 +211,7 @@ class CommandProcessor:
 
         has_ifstar = definition.startswith(r"\@ifstar")
         if has_ifstar:
-            usage_pattern = r"(?:%s)(?:\s*\*)?" % usage_pattern
+            usage_pattern = r"(?:%s)" % usage_pattern + STAR_PATTERN
             out, pos = self.if_else_handler.handle(definition)
             if out and "ifstar" in out["type"]:
                 true_block = out["if_content"] + definition[pos:]
@@ -237,6 +244,7 @@ class CommandProcessor:
         if check_definition:
             get_definition = check_definition["get_definition"]
             usage_pattern = check_definition["usage_pattern"]
+        args_pattern = STAR_PATTERN if check_definition else ""
 
         if num_args == 0:
 
@@ -290,6 +298,7 @@ class CommandProcessor:
                 "definition": definition,
                 "math_mode_only": math_mode_only,
                 "num_args": num_args,
+                "args_pattern": args_pattern,
             }
             self.commands[command_name] = command
             self.let_commands.pop(command_name, None)
@@ -339,8 +348,14 @@ class CommandProcessor:
         usage_pattern: str,
         expand_definition=False,
     ):
+        # what follows the command itself i.e. its arguments
+        _, _, args_pattern = usage_pattern.partition(
+            re.escape(command_name) + USAGE_SUFFIX
+        )
+
         get_definition = lambda match: definition
         if num_args == 0:
+            args_pattern = ""
             # hacky??
             check_definition = self._parse_definition_conditionals(
                 definition, usage_pattern
@@ -348,6 +363,7 @@ class CommandProcessor:
             if check_definition:
                 get_definition = check_definition["get_definition"]
                 usage_pattern = check_definition["usage_pattern"]
+                args_pattern = STAR_PATTERN
 
         def handler(
             match: re.Match[str], text: str, math_mode: bool = False
@@ -363,11 +379,6 @@ class CommandProcessor:
         if expand_definition:
             definition = self.expand_commands(definition, True)[0]
 
-        # what follows the command itself i.e. its arguments
-        _, _, args_pattern = usage_pattern.partition(
-            re.escape(command_name) + USAGE_SUFFIX
-        )
-
         try:
             command: CommandEntry = {
                 "pattern": re.compile(usage_pattern, re.DOTALL),
-- 
2.43.0


From 6976ce9aec801f1be0740b7979bb925a328c9ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:41 +0000
Subject: [PATCH 098/132] fix: names made by \csname that are not letters, and
 their arguments through \let

---
 latex2json/parser/handlers/command_manager.py | 20 ++++++----------
 .../parser/handlers/command_processor.py      | 23 +++++++++++--------
 latex2json/parser/handlers/new_definition.py  |  2 +-
 3 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index 55f87fb..b1c8716 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -8,14 +8,9 @@ from latex2json.parser.handlers.command_processor import CommandProcessor
 from latex2json.parser.handlers.new_definition import NewDefinitionHandler
 from latex2json.parser.packages.keyval import KeyValHandler
 
-COMMAND_NAME_PATTERN = re.compile(r"[a-zA-Z@]+|.", re.DOTALL)
-USED_COMMAND_PATTERN = re.compile(r"\\([a-zA-Z@]+|.)", re.DOTALL)
-
-
-def get_base_command_name(cmd_name: str) -> str:
-    r"""Strip what follows the command itself e.g. the delimiter of \def\foo.#1{..}"""
-    match = COMMAND_NAME_PATTERN.match(cmd_name)
-    return match.group(0) if match else cmd_name
+USED_COMMAND_PATTERN = re.compile(
+    r"\\csname\s*([^\\]+?)\s*\\endcsname|\\([a-zA-Z@]+|.)", re.DOTALL
+)
 
 
 class CommandManager(TokenHandler):
@@ -74,17 +69,16 @@ class CommandManager(TokenHandler):
 
     def _is_recursive(self, cmd_name: str, content: str) -> bool:
         """Check if the content uses the command itself, directly or through other registered commands"""
-        name = get_base_command_name(cmd_name)
         definitions = {
-            get_base_command_name(k): v.get("definition")
-            for k, v in self.processor.get_commands().items()
+            k: v.get("definition") for k, v in self.processor.get_commands().items()
         }
 
         seen = set()
         pending = [content]
         while pending:
-            for used in USED_COMMAND_PATTERN.findall(pending.pop()):
-                if used == name:
+            for csname, used in USED_COMMAND_PATTERN.findall(pending.pop()):
+                used = csname or used
+                if used == cmd_name:
                     return True
                 if used not in seen:
                     seen.add(used)
diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 4291b67..c3393f4 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -177,7 +177,8 @@ class CommandProcessor:
             self.commands[command_name] = {
                 **target,
                 "pattern": re.compile(
-                    usage_pattern + target.get("args_pattern", ""), re.DOTALL
+                    "(?:%s)" % usage_pattern + target.get("args_pattern", ""),
+                    re.DOTALL,
                 ),
             }
             self.let_commands.pop(command_name, None)
@@ -349,9 +350,10 @@ class CommandProcessor:
         expand_definition=False,
     ):
         # what follows the command itself i.e. its arguments
-        _, _, args_pattern = usage_pattern.partition(
-            re.escape(command_name) + USAGE_SUFFIX
-        )
+        _, _, args_pattern = usage_pattern.partition(re.escape(command_name))
+        args_pattern = args_pattern.removeprefix(USAGE_SUFFIX)
+        # the same again for its use by \csname
+        args_pattern = args_pattern.partition(r"|\\csname")[0]
 
         get_definition = lambda match: definition
         if num_args == 0:
@@ -524,13 +526,14 @@ class CommandProcessor:
                         out, _ = cmd["handler"](match, text)
                         return out, end_pos
                 # the name of another command e.g. made by \newcommand
-                name = "\\" + nested.lstrip()
-                usage = name + " " + text[end_pos:]
-                for cmd in self.get_command_iter(False):
-                    match = " " not in name and cmd["pattern"].match(usage)
-                    if match and match.group(0).startswith(name):
+                name = nested.lstrip()
+                cmd = self._all_commands.get(name)
+                if cmd and not cmd.get("math_mode_only", False):
+                    usage = "\\" + name + " " + text[end_pos:]
+                    match = cmd["pattern"].match(usage)
+                    if match:
                         out, pos = cmd["handler"](match, usage)
-                        return out, max(end_pos, end_pos + pos - len(name) - 1)
+                        return out, max(end_pos, end_pos + pos - len(name) - 2)
                 return "", end_pos
         return text, 0
 
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 0599ebf..c92cb65 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -563,7 +563,7 @@ class NewDefinitionHandler(TokenHandler):
                         usage_suffix = USAGE_SUFFIX
                         if add_usage_suffix:
                             _, _, usage_suffix = token["usage_pattern"].partition(
-                                "\\" + first_inner.replace(" ", "")
+                                "\\" + re.escape(first_inner.replace(" ", ""))
                             )
                         inner_csname_regex = (
                             r"\\csname"
-- 
2.43.0


From b21f8eda7a627e8335c76c06f3c0ecc7821bd787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:41 +0000
Subject: [PATCH 099/132] fix: references inside styled groups of table cells

---
 latex2json/parser/handlers/tabular.py | 114 ++++++++++++++------------
 1 file changed, 62 insertions(+), 52 deletions(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 9e2daa9..31e79ca 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -362,6 +362,67 @@ class TabularHandler(BaseEnvironmentHandler):
             content = self.cell_parser_fn(content)
         return self._clean_cell(content)
 
+    def _restore_references(
+        self, cells: List[Dict], reference_map: Dict[str, Dict]
+    ) -> List[Dict]:
+        """Put the tokens back in place of their references, also inside of e.g. styled groups"""
+        out_cells = []
+        for cell in cells:
+            if isinstance(cell, dict) and cell.get("type") == "text":
+                # fetch the references in text content and replace it with the reference content token(s) chunks
+                # e.g. {type: "text", content: "hello `|REF_1|` world `|REF_2|`", styles: ["bold"]}
+                # becomes {type: "text", content: "hello "}, REF_1 token, {type: "text", content: " world "}, REF_2 token
+                # and all these token chunks maintain the same styles as original
+                content = cell["content"]
+                styles = cell.get("styles", [])
+                chunks: List[Dict] = []
+                current_pos = 0
+
+                for ref_key in reference_map:
+                    # only one occurence of each reference key and in order
+                    if ref_key in content[current_pos:]:
+                        # Find next reference position
+                        ref_pos = content.find(ref_key, current_pos)
+
+                        # Add text before reference if any
+                        if ref_pos > current_pos:
+                            text_chunk = {
+                                "type": "text",
+                                "content": content[current_pos:ref_pos],
+                            }
+                            chunks.append(text_chunk)
+
+                        # Add reference token
+                        ref_token = reference_map[ref_key].copy()
+                        chunks.append(ref_token)
+
+                        current_pos = ref_pos + len(ref_key)
+
+                # Add remaining text if any
+                if current_pos < len(content):
+                    text_chunk = {
+                        "type": "text",
+                        "content": content[current_pos:],
+                    }
+                    chunks.append(text_chunk)
+
+                # now add style if exists
+                if styles:
+                    for chunk in chunks:
+                        cur_styles = chunk.get("styles", [])
+                        # Preserve order while removing duplicates
+                        chunk["styles"] = list(
+                            dict.fromkeys(styles + cur_styles)
+                        )
+                out_cells.extend(chunks)
+            else:
+                if isinstance(cell, dict):
+                    for key in ("title", "content"):
+                        if isinstance(cell.get(key), list):
+                            cell[key] = self._restore_references(cell[key], reference_map)
+                out_cells.append(cell)
+        return out_cells
+
     def _restore_styled_structures(
         self, tokens: List[Dict], table_structures: Dict[str, Dict], styles=[]
     ) -> List[Dict]:
@@ -525,58 +586,7 @@ class TabularHandler(BaseEnvironmentHandler):
                     else:
                         cells = [{"type": "text", "content": content}]
 
-                    out_cells = []
-                    for cell in cells:
-                        if isinstance(cell, dict) and cell.get("type") == "text":
-                            # fetch the references in text content and replace it with the reference content token(s) chunks
-                            # e.g. {type: "text", content: "hello `|REF_1|` world `|REF_2|`", styles: ["bold"]}
-                            # becomes {type: "text", content: "hello "}, REF_1 token, {type: "text", content: " world "}, REF_2 token
-                            # and all these token chunks maintain the same styles as original
-                            content = cell["content"]
-                            styles = cell.get("styles", [])
-                            chunks: List[Dict] = []
-                            current_pos = 0
-
-                            for ref_key in reference_map:
-                                # only one occurence of each reference key and in order
-                                if ref_key in content[current_pos:]:
-                                    # Find next reference position
-                                    ref_pos = content.find(ref_key, current_pos)
-
-                                    # Add text before reference if any
-                                    if ref_pos > current_pos:
-                                        text_chunk = {
-                                            "type": "text",
-                                            "content": content[current_pos:ref_pos],
-                                        }
-                                        chunks.append(text_chunk)
-
-                                    # Add reference token
-                                    ref_token = reference_map[ref_key].copy()
-                                    chunks.append(ref_token)
-
-                                    current_pos = ref_pos + len(ref_key)
-
-                            # Add remaining text if any
-                            if current_pos < len(content):
-                                text_chunk = {
-                                    "type": "text",
-                                    "content": content[current_pos:],
-                                }
-                                chunks.append(text_chunk)
-
-                            # now add style if exists
-                            if styles:
-                                for chunk in chunks:
-                                    cur_styles = chunk.get("styles", [])
-                                    # Preserve order while removing duplicates
-                                    chunk["styles"] = list(
-                                        dict.fromkeys(styles + cur_styles)
-                                    )
-                            out_cells.extend(chunks)
-                        else:
-                            out_cells.append(cell)
-                    cells = out_cells
+                    cells = self._restore_references(cells, reference_map)
 
                 if cells:
                     return cells
-- 
2.43.0


From a2f45a8d952a7d8c167fbb96baf34e36e6528203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:41 +0000
Subject: [PATCH 100/132] fix: \IfFileExists in packages finds the files next
 to the document and package

---
 latex2json/parser/sty_parser.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/sty_parser.py b/latex2json/parser/sty_parser.py
index e36c7af..d1b8a78 100644
--- a/latex2json/parser/sty_parser.py
+++ b/latex2json/parser/sty_parser.py
@@ -143,12 +143,15 @@ class LatexStyParser:
 
                         file_path = token.get("condition", "").strip()
                         if file_path:
-                            if self.current_file_dir:
-                                file_path = os.path.join(
-                                    self.current_file_dir, file_path
+                            # next to this file, or the document
+                            for folder in (self.current_file_dir, self.document_dir):
+                                path = (
+                                    os.path.join(folder, file_path)
+                                    if folder
+                                    else file_path
                                 )
-                            if os.path.exists(file_path):
-                                block = token.get("if_content", "")
+                                if os.path.exists(path):
+                                    block = token.get("if_content", "")
                 return block, current_pos + end_pos
         return None, current_pos
 
-- 
2.43.0


From 16687b3136eb47540420d5b5d56fb12e61e39362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:08 +0000
Subject: [PATCH 101/132] fix: options of \printbibliography

---
 latex2json/parser/handlers/formatting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 310a91b..1585f05 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -117,7 +117,11 @@ RAW_PATTERNS = OrderedDict(
             "style",
             r"\\(?:pagestyle|urlstyle|thispagestyle|theoremstyle|bibliographystyle|documentstyle|setcitestyle)\s*\{[^}]*\}",
         ),
-        ("bib", r"\\printbibliography\b"),
+        (
+            "bib",
+            r"\\printbibliography(?![a-zA-Z@])(?:[ \t]*\n?[ \t]*\[(?:[^\[\]{}]|%s)*\])?"
+            % NESTED_BRACES,
+        ),
         ("bibmacro", r"\\renewbibmacro\*?\s*%s\s*{" % (BRACE_CONTENT_PATTERN)),
         ("newstyle", r"\\(?:newpagestyle|renewpagestyle)\s*\{[^}]*\}\s*{"),
         # ("font", r"\\(?:mdseries|bfseries|itshape|slshape|normalfont|ttfamily)\b"),
-- 
2.43.0


From 4a3cfb474f740862f4b9af58ab5cad307185be9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:36 +0000
Subject: [PATCH 102/132] fix: 8-bit encodings are not read as UTF-8

---
 latex2json/utils/encoding.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/latex2json/utils/encoding.py b/latex2json/utils/encoding.py
index c93e3e7..b0c5f31 100644
--- a/latex2json/utils/encoding.py
+++ b/latex2json/utils/encoding.py
@@ -11,6 +11,16 @@ BOMS = [
 ]
 
 
+def keeps_ascii(encoding: str) -> bool:
+    """Whether ASCII characters are stored as such, which is not so in e.g. EBCDIC"""
+    if encoding.lower().startswith("utf"):
+        return True
+    try:
+        return "\\{}".encode(encoding) == b"\\{}"
+    except (LookupError, UnicodeError):
+        return False
+
+
 def detect_encoding(path: str) -> str:
     """
     Detect the encoding of a file.
@@ -40,15 +50,22 @@ def detect_encoding(path: str) -> str:
     except UnicodeDecodeError:
         pass
 
+    # ... except for damaged UTF-8, where most of the characters still are
+    text = raw_data.decode("utf-8", errors="replace")
+    damaged = text.count("\ufffd")
+    if sum(ord(c) > 127 for c in text) - damaged > damaged:
+        return "utf-8"
+
     # Detect encoding from a sample of the file for faster detection
-    # For larger files, the first few KB are usually sufficient
-    raw_data = raw_data[:10000]  # First 10KB
-    result = chardet.detect(raw_data)
-    encoding = result.get("encoding", "utf-8")
-
-    # Handle None or very low confidence results
-    if encoding is None or result.get("confidence", 0) < 0.5:
-        encoding = "utf-8"  # Default to utf-8 if unsure
+    # For larger files, a few KB from the first special character on are usually sufficient
+    start = next(i for i, byte in enumerate(raw_data) if byte > 127)
+    raw_data = raw_data[max(0, start - 100) : start + 9900]
+    encoding = chardet.detect(raw_data).get("encoding")
+
+    # It is not UTF-8, so even an unsure result is better than that,
+    # as long as it keeps the characters that LaTeX is written with
+    if encoding is None or not keeps_ascii(encoding):
+        encoding = "latin-1"
 
     # Some common encoding mappings/normalizations
     encoding_map = {
-- 
2.43.0


From 89c8f8dad6d2feb20bc0df7fb0f40544a80a7efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:36 +0000
Subject: [PATCH 103/132] fix: lengths that were set, assigned a multiple of
 another length

---
 latex2json/parser/handlers/command_processor.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index c3393f4..1b6b53e 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -31,6 +31,12 @@ CSNAME_PATTERN = re.compile(
 # COMPARISON_OP_PATTERN = re.compile(r"\s*=\s*%s" % command_or_dim)
 
 
+# multiple of another length e.g. .5\textwidth
+NUMBER_LENGTH = (
+    r"(?:\d+\.?\d*|\.\d+)\\(?:[a-zA-Z]*(?:width|height|skip|sep|indent)|[hv]size)(?![a-zA-Z@])"
+)
+
+
 class CommandEntry(TypedDict):
     pattern: Pattern[str]
     handler: Callable[[re.Match[str], str, Optional[bool]], Tuple[str, int]]
@@ -427,8 +433,13 @@ class CommandProcessor:
         # drop what is assigned to it too e.g. \foo=2pt
         command: CommandEntry = {
             "pattern": re.compile(
-                r"\\%s(?![a-zA-Z@])(?:(?=\s*(?:=|[-+]?\s*%s))%s|\s*=\s*[-+]?\d+)?"
-                % (re.escape(var_name), NUMBER_UNIT, ASSIGNED_LENGTH)
+                r"\\%s(?![a-zA-Z@])(?:(?=\s*(?:=|[-+]?\s*(?:%s|%s)))%s|\s*=\s*[-+]?\d+)?"
+                % (
+                    re.escape(var_name),
+                    NUMBER_UNIT,
+                    NUMBER_LENGTH,
+                    ASSIGNED_LENGTH,
+                )
             ),
             "handler": default_ignore_handler,
         }
-- 
2.43.0


From 9824ba624b95859f0739eaaba070d889d10ec467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:52 +0000
Subject: [PATCH 104/132] fix: values and defaults of keys in \setkeys

---
 latex2json/parser/handlers/command_manager.py |  2 +-
 latex2json/parser/packages/keyval.py          | 51 +++++++++++++++----
 latex2json/parser/tex_preprocessor.py         | 13 +++--
 3 files changed, 53 insertions(+), 13 deletions(-)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index b1c8716..d1c2ded 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -193,7 +193,7 @@ class CommandManager(TokenHandler):
             if end_pos > 0:
                 if token.get("codeblocks"):
                     out_str = ""
-                    for key, codeblock in token["codeblocks"].items():
+                    for codeblock in token["codeblocks"]:
                         out_str += codeblock + "\n"
                     return out_str, end_pos
                 # If KeyValHandler processed it, pass through the result
diff --git a/latex2json/parser/packages/keyval.py b/latex2json/parser/packages/keyval.py
index e799f38..320e898 100644
--- a/latex2json/parser/packages/keyval.py
+++ b/latex2json/parser/packages/keyval.py
@@ -4,6 +4,7 @@ from dataclasses import dataclass
 
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.utils.tex_utils import (
+    extract_nested_content,
     extract_nested_content_sequence_blocks,
     substitute_args,
 )
@@ -23,7 +24,24 @@ PATTERNS = {
     "setkeys": re.compile(r"\\setkeys\s*"),
 }
 
-KEY_VALUE_PATTERN = re.compile(r"([^=,\s]+)(?:=([^,]+))?")
+
+def split_outside_braces(text: str, char: str, maxsplit: int = -1) -> List[str]:
+    """Split the text at the character, unless that is in braces"""
+    parts = []
+    depth = start = pos = 0
+    while pos < len(text) and maxsplit != 0:
+        if text[pos] == "\\":
+            pos += 1
+        elif text[pos] == "{":
+            depth += 1
+        elif text[pos] == "}":
+            depth -= 1
+        elif text[pos] == char and depth == 0:
+            parts.append(text[start:pos])
+            start = pos + 1
+            maxsplit -= 1
+        pos += 1
+    return parts + [text[start:]]
 
 
 class KeyValHandler(TokenHandler):
@@ -102,10 +120,19 @@ class KeyValHandler(TokenHandler):
         total_pos = pos + end_pos
 
         key_values = []
-        for key_value_match in KEY_VALUE_PATTERN.finditer(key_values_str):
-            key = key_value_match.group(1)
-            value = key_value_match.group(2)
-            key_values.append({"key": key, "value": value.strip() if value else "true"})
+        for key_value in split_outside_braces(key_values_str, ","):
+            key, *value = [
+                part.strip() for part in split_outside_braces(key_value, "=", 1)
+            ]
+            if not key:
+                continue
+            value = value[0] if value else None
+            if value and value.startswith("{"):
+                # braces only protect the value
+                inner, end_pos = extract_nested_content(value)
+                if inner is not None and end_pos == len(value):
+                    value = inner
+            key_values.append({"key": key, "value": value})
 
         return {
             "type": "keyval_setting",
@@ -114,7 +141,7 @@ class KeyValHandler(TokenHandler):
         }, total_pos
 
     def _process_setkeys_token(self, token: Dict):
-        codeblocks = {}
+        codeblocks = []
         family = token.get("family", "")
         if family in self.key_definitions:
             key_values = token["key_values"]
@@ -122,10 +149,16 @@ class KeyValHandler(TokenHandler):
                 key = key_value["key"]
                 value = key_value["value"]
                 if key in self.key_definitions[family]:
-                    codeblock = self.key_definitions[family][key].codeblock
+                    definition = self.key_definitions[family][key]
+                    codeblock = definition.codeblock
                     if codeblock:
-                        codeblock = substitute_args(codeblock, [value])
-                        codeblocks[key] = codeblock
+                        if value is None:
+                            value = (
+                                "true"
+                                if definition.default is None
+                                else definition.default
+                            )
+                        codeblocks.append(substitute_args(codeblock, [value]))
 
         return codeblocks
 
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 48a0191..c1ced0c 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -34,9 +34,9 @@ ADD_TO_PATTERN = re.compile(r"\\addto\s*(?:{?\\[^}\s]+}?)\s*\{")  # e.g. \addto\
 
 COMMAND_NAME_PATTERN = re.compile(r"\\([a-zA-Z@]+)")
 
-# a definition inside of the definition of a macro
+# a definition inside of the definition of a macro, or the setting of keys, whose code may hold some
 INNER_DEFINITION_PATTERN = re.compile(
-    r"\\(?:[egx]?def|let|(?:re)?newcommand|providecommand|DeclareRobustCommand)(?![a-zA-Z@])"
+    r"\\(?:[egx]?def|let|(?:re)?newcommand|providecommand|DeclareRobustCommand|setkeys)(?![a-zA-Z@])"
 )
 
 ALL_VERBATIM_PATTERNS = list(VERBATIM_PATTERNS.values())
@@ -281,9 +281,16 @@ class LatexPreprocessor:
                 content[current_pos:], register=False
             )
             if token:
-                if token.get("type", "").startswith("keyval"):
+                if token.get("type", "") == "keyval_definition":
                     current_pos += end_pos
                     continue
+                if token.get("type", "") == "keyval_setting":
+                    # run the code of the keys here, so that what it defines is known
+                    code = "".join(block + "\n" for block in token["codeblocks"])
+                    content = (
+                        content[:current_pos] + code + content[current_pos + end_pos :]
+                    )
+                    continue
                 # Skip macro definitions that have parameters (#1, #2) or take arguments,
                 # as these need to be expanded later when actual values are provided
                 name = token.get("name", "")
-- 
2.43.0


From 134729bf516a9e69e034b66bb3af84eb74781b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:45 +0000
Subject: [PATCH 105/132] fix: boxes set by number, by lrbox and in tables

---
 latex2json/parser/handlers/formatting.py |  3 +-
 latex2json/parser/packages/boxes.py      | 62 ++++++++++++++++++++++--
 latex2json/parser/tex_parser.py          | 26 +++++++---
 latex2json/parser/tex_preprocessor.py    | 11 ++++-
 4 files changed, 88 insertions(+), 14 deletions(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 1585f05..de413c3 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -292,7 +292,7 @@ RAW_PATTERNS = OrderedDict(
         (
             "other",
             re.compile(
-                r"\\(?:ignorespaces|relax|repeat|\@tempboxa|box|global|@plus|@minus|null|FloatBarrier|footins|phantomsection)\b",
+                r"\\(?:ignorespaces|relax|repeat|\@tempboxa|global|@plus|@minus|null|FloatBarrier|footins|phantomsection)\b",
             ),
         ),
         ("newmdenv", re.compile(r"\\newmdenv\s*(?:\[(.*?)\])?\s*\{(.*?)\}", re.DOTALL)),
@@ -307,6 +307,7 @@ RAW_PATTERNS = OrderedDict(
         # other...
         ("physics", r"\\pacs\s*\{(.*?)\}"),
         ("Hy@", r"\\Hy@[a-zA-Z]+\s*{"),
+        ("box", r"\\box\b"),
         ("unvbox", r"\\unvbox\s*(?:%s|\\[a-zA-Z@]+\b)" % (number_regex)),
         ("string_or_chars", r"\\string\b|\\escapechar\b(?:\s*=\s*(?:-?\d+|`\\?.))?"),
         (
diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index befe1ad..b9c0d4e 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -8,6 +8,7 @@ from latex2json.parser.patterns import OPTIONAL_BRACE_PATTERN
 from latex2json.utils.tex_utils import (
     extract_nested_content,
     extract_delimited_args,
+    find_matching_env_block,
     strip_latex_newlines,
 )
 
@@ -48,10 +49,18 @@ SAVED_BOX_PATTERN = re.compile(
 
 # add ADDITIONAL pattern for setbox
 SETBOX_PATTERN = re.compile(
-    r"\\setbox\s*(\d+|%s)\s*=\s*" % command_with_opt_brace_pattern,
+    r"\\setbox\s*(\d+|%s)\s*=?\s*" % command_with_opt_brace_pattern,
     re.VERBOSE | re.DOTALL,
 )
 
+# showing a box: \box0, \copy\mybox etc.
+SHOW_BOX_PATTERN = re.compile(
+    r"\\(box|copy|unhbox|unhcopy|unvbox|unvcopy)\s*(?:(\d+)\s?|\\([a-zA-Z@]+)\s*)"
+)
+
+# the content of the environment is saved
+LRBOX_PATTERN = re.compile(r"\\begin\s*\{lrbox\}\s*(\{\s*\\[a-zA-Z@]+\s*\}|\\[a-zA-Z@]+)")
+
 
 def parse_varname_from_brace_or_backslash(var_name: str) -> Tuple[Optional[str], int]:
     if var_name.startswith("{"):
@@ -88,12 +97,21 @@ class BoxHandler(TokenHandler):
             or FANCYHEAD_PATTERN.match(content)
             or SAVED_BOX_PATTERN.match(content)
             or SETBOX_PATTERN.match(content)
+            or SHOW_BOX_PATTERN.match(content)
+            or LRBOX_PATTERN.match(content)
         )
 
     def clear(self):
         self.saved_boxes = {}
         self.numbered_boxes = {}  # Clear numbered boxes too
 
+    def get_boxes(self) -> Tuple[Dict, Dict]:
+        """The boxes set so far, see set_boxes"""
+        return self.saved_boxes.copy(), self.numbered_boxes.copy()
+
+    def set_boxes(self, boxes: Tuple[Dict, Dict]):
+        self.saved_boxes, self.numbered_boxes = boxes
+
     def handle(
         self, content: str, prev_token: Dict = None
     ) -> Tuple[Dict | List[Dict], int]:
@@ -102,6 +120,14 @@ class BoxHandler(TokenHandler):
         if setbox_match:
             return self._handle_setbox(content, setbox_match)
 
+        show_match = SHOW_BOX_PATTERN.match(content)
+        if show_match:
+            return self._handle_show_box(show_match)
+
+        lrbox_match = LRBOX_PATTERN.match(content)
+        if lrbox_match:
+            return self._handle_lrbox(content, lrbox_match)
+
         # Try to match saved box commands first
         saved_match = SAVED_BOX_PATTERN.match(content)
         if saved_match:
@@ -189,6 +215,35 @@ class BoxHandler(TokenHandler):
 
         return None, match.end()
 
+    def _handle_lrbox(self, content: str, match: re.Match) -> Tuple[None, int]:
+        _, end_pos, _ = find_matching_env_block(content, "lrbox")
+        if end_pos <= 0:
+            return None, 0
+        box_name = parse_varname_from_brace_or_backslash(match.group(1))
+        box_content = content[match.end() : content.rindex("\\end", 0, end_pos)]
+        if self.process_content_fn:
+            box_content = self.process_content_fn(box_content)
+        if isinstance(box_content, str):
+            box_content = {"type": "text", "content": box_content}
+        self.saved_boxes[box_name] = box_content
+        return None, end_pos
+
+    def _handle_show_box(self, match: re.Match) -> Tuple[Any, int]:
+        command, number, name = match.groups()
+        if number is not None:
+            boxes, key = self.numbered_boxes, int(number)
+        else:
+            boxes, key = self.saved_boxes, name
+        if key not in boxes:
+            return None, 0
+
+        # a copy, since tokens are altered afterwards e.g. their styles
+        box = deepcopy(boxes[key])
+        if not command.endswith("copy"):
+            # the box is empty once it is shown
+            boxes[key] = None
+        return box, match.end()
+
     def _handle_setbox(
         self, content: str, match: re.Match
     ) -> Tuple[Optional[Dict], int]:
@@ -217,9 +272,8 @@ class BoxHandler(TokenHandler):
         if box_match:
             # Use the existing box handling logic
             box_result, end_pos = self.handle(remaining_content)
-            if box_result:
-                save_box_dict[box_name] = box_result
-                return None, start_pos + end_pos
+            save_box_dict[box_name] = box_result
+            return None, start_pos + end_pos
 
         # Fallback to direct content extraction if no box pattern matches
         extracted_args, end_pos = extract_delimited_args(remaining_content, "{")
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index b2335ee..aa37cfa 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -117,12 +117,7 @@ class LatexParser:
             ContentCommandHandler(),
             # for tabular, on the first pass we process content and maintain the '\\' delimiter to maintain row integrity
             TabularHandler(
-                process_content_fn=lambda x: self.parse(
-                    x,
-                    r"\\",
-                    handle_unknown_commands=False,
-                    handle_legacy_formatting=False,
-                ),
+                process_content_fn=self._process_table,
                 cell_parser_fn=self.parse,
             ),
             # make sure to add EnvironmentHandler after equation/tabular or other env related formats, since it will greedily parse any begin/end block. Add as last to be safe
@@ -476,6 +471,21 @@ class LatexParser:
 
         self.add_token(token, tokens, add_space)
 
+    def _process_table(self, content: str) -> List[Dict]:
+        """The pass over a table before its cells are parsed"""
+        box_handlers = [h for h in self.handlers if isinstance(h, BoxHandler)]
+        boxes = [h.get_boxes() for h in box_handlers]
+        tokens = self.parse(
+            content,
+            r"\\",
+            handle_unknown_commands=False,
+            handle_legacy_formatting=False,
+        )
+        # the cells set and show the boxes again
+        for handler, saved in zip(box_handlers, boxes):
+            handler.set_boxes(saved)
+        return tokens
+
     def _check_handlers(
         self,
         content: str,
@@ -518,7 +528,9 @@ class LatexParser:
                     is_text = not isinstance(token, dict) or (
                         token["type"] == "text" and "styles" not in token
                     )
-                if is_text and token and keep_source:
+                # boxes set in a table are set by its cells
+                is_box = isinstance(handler, BoxHandler)
+                if is_text and (token or is_box) and keep_source:
                     source = content[:end_pos]
                     self.add_token(
                         " " + source if preceded_by_space else source, tokens
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index c1ced0c..554398f 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -344,10 +344,17 @@ class LatexPreprocessor:
 
             # check for formatting (put formatting ahead so that we can ignore lots of unnecessary things)
             if self.formatting_handler.can_handle(content[current_pos:]):
-                # comments are already stripped, so a remaining % belongs to e.g. an url
+                # comments are already stripped, so a remaining % belongs to e.g. an url,
+                # and boxes are shown by the parser
                 token, end_pos = self.formatting_handler.handle(
                     content[current_pos:],
-                    exclude_patterns=["comment", "backslash", "ensuremath"],
+                    exclude_patterns=[
+                        "comment",
+                        "backslash",
+                        "ensuremath",
+                        "box",
+                        "unvbox",
+                    ],
                 )
                 if end_pos > 0:
                     block = ""
-- 
2.43.0


From 384d82a4598e3822d2e9cea6e7a08939a58bdd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:13 +0000
Subject: [PATCH 106/132] fix: number and organize proofs merged into their
 environments

---
 latex2json/structure/builder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index dd6b894..b89b981 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -418,6 +418,12 @@ class TokenBuilder:
                     token["content"], in_appendix=in_appendix, list_depth=list_depth
                 )
 
+            # a merged proof follows the content of its environment
+            if isinstance(token.get("proof"), dict):
+                token["proof"] = self._recursive_organize(
+                    [token["proof"]], in_appendix=in_appendix, list_depth=list_depth
+                )[0]
+
             # Handle special token types
             if token["type"] == "bibliography":
                 section_stack.clear()
-- 
2.43.0


From b1426d7090e7f176f95e0ffff03cf044fb7e831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:20 +0000
Subject: [PATCH 107/132] fix: macros named by \csname that use themselves

---
 latex2json/parser/handlers/command_manager.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index d1c2ded..44a343d 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -73,11 +73,22 @@ class CommandManager(TokenHandler):
             k: v.get("definition") for k, v in self.processor.get_commands().items()
         }
 
+        # names made by \csname that are no plain control sequence, e.g. foo1
+        names = [
+            name
+            for name in (cmd_name, *definitions)
+            if not re.fullmatch(r"[a-zA-Z@]+|.", name, re.DOTALL)
+        ]
+
         seen = set()
         pending = [content]
         while pending:
-            for csname, used in USED_COMMAND_PATTERN.findall(pending.pop()):
-                used = csname or used
+            text = pending.pop()
+            all_used = [
+                csname or used for csname, used in USED_COMMAND_PATTERN.findall(text)
+            ]
+            all_used += [name for name in names if "\\" + name in text]
+            for used in all_used:
                 if used == cmd_name:
                     return True
                 if used not in seen:
-- 
2.43.0


From ee6acc4e442306bdbd4d76da1bb2b001dd66634c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:53 +0000
Subject: [PATCH 108/132] fix: labels in cells that are parsed more than once

---
 latex2json/parser/tex_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index aa37cfa..3a74974 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -179,7 +179,9 @@ class LatexParser:
             # Associate label with current environment
             if "labels" not in self.current_env:
                 self.current_env["labels"] = []
-            self.current_env["labels"].append(content)
+            # a table cell may be parsed more than once
+            if content not in self.current_env["labels"]:
+                self.current_env["labels"].append(content)
             self.labels[content] = self.current_env
         else:
             # No current environment, associate with previous token if exists
-- 
2.43.0


From c62d84229b50802285ff3c03c403a5b04380a8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:00 +0000
Subject: [PATCH 109/132] fix: nested braces in arguments of layout commands
 (addcontentsline, setcitestyle, crefname, ...)

---
 latex2json/parser/handlers/content_command.py |  2 +-
 latex2json/parser/handlers/formatting.py      | 19 +++++++++++++------
 latex2json/parser/handlers/new_definition.py  |  6 +++++-
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index ebdacbc..34d2b2c 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -54,7 +54,7 @@ RAW_PATTERNS = OrderedDict(
         ("bookmark", r"\\bookmark\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
             "pdfbookmark",
-            r"\\(?:below|current)?pdfbookmark\s*%s\s*{([^}]*)}\s*{"
+            r"\\(?:below|current)?pdfbookmark\s*%s\s*{((?:[^{}]|{[^{}]*})*|[^}]*)}\s*{"
             % OPTIONAL_BRACE_PATTERN,
         ),
         # footnotes
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index de413c3..c8cc15f 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -36,6 +36,8 @@ number_regex = NUMBER_PATTERN
 BREAK_OPTION = r"(?:[ \t]*\[\s*\d\s*\])?"
 # braces with one more level of braces inside
 NESTED_BRACES = r"\{(?:[^{}]|\{[^{}]*\})*\}"
+# an argument to skip, with its nested braces when they are balanced
+SKIPPED_BRACES = r"(?:\{(?:[^{}]|%s)*\}|\{[^}]*\})" % NESTED_BRACES
 
 declare_pattern_N_blocks = {
     "DeclareFontFamily": 3,
@@ -73,14 +75,17 @@ RAW_PATTERNS = OrderedDict(
         # date
         ("date", r"\\date\s*\{"),
         ("today", r"\\today\b"),
-        ("subjclass", r"\\subjclass\s*%s\s*\{[^}]+\}" % OPTIONAL_BRACE_PATTERN),
+        ("subjclass", r"\\subjclass\s*%s\s*%s" % (OPTIONAL_BRACE_PATTERN, SKIPPED_BRACES)),
         # Formatting commands
         ("setup", r"\\(?:hypersetup|captionsetup)%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
             "make_or_contents",
             r"\\(?:(?:[a-zA-Z@]+)?maketitle|makeatletter|makeatother|tableofcontents|@title)\b",
         ),
-        ("addcontentsline", r"\\addcontentsline\s*\{[^}]*\}\s*\{[^}]*\}\s*\{[^}]*\}"),
+        (
+            "addcontentsline",
+            r"\\addcontentsline\s*\{[^}]*\}\s*\{[^}]*\}\s*%s" % SKIPPED_BRACES,
+        ),
         ("addtocontents", r"\\(?:addtocontents|addtocounter)\s*\{[^}]*\s*\}\s*{"),
         ("titlecontents", r"\\titlecontents\s*{"),
         ("contents", r"\\contentspage\b|\\startcontents\b(?:\s*\[[^\]]*\])?"),
@@ -91,7 +96,8 @@ RAW_PATTERNS = OrderedDict(
         ),
         (
             "page",
-            r"\\enlargethispage\*?\s*\{[^}]*\}|\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|samepage|thepage|noindent|par|clearpage|cleardoublepage|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)\b",
+            r"\\enlargethispage\*?\s*%s|" % SKIPPED_BRACES
+            + r"\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|samepage|thepage|noindent|par|clearpage|cleardoublepage|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)\b",
         ),
         (
             "pagebreak",
@@ -115,7 +121,8 @@ RAW_PATTERNS = OrderedDict(
         ),
         (
             "style",
-            r"\\(?:pagestyle|urlstyle|thispagestyle|theoremstyle|bibliographystyle|documentstyle|setcitestyle)\s*\{[^}]*\}",
+            r"\\(?:pagestyle|urlstyle|thispagestyle|theoremstyle|bibliographystyle|documentstyle|setcitestyle)\s*%s"
+            % SKIPPED_BRACES,
         ),
         (
             "bib",
@@ -169,7 +176,7 @@ RAW_PATTERNS = OrderedDict(
         ),
         (
             "toolset",
-            r"\\mathtoolsset\s*%s" % (BRACE_CONTENT_PATTERN),
+            r"\\mathtoolsset\s*%s" % SKIPPED_BRACES,
         ),
         # \kern, which is technically spacing but more like a length between characters. so ignore
         (
@@ -184,7 +191,7 @@ RAW_PATTERNS = OrderedDict(
             "options",
             re.compile(
                 r"\\(?:ProcessOptions\b|(PassOptionsToPackage|PassOptionsToClass)\s*%s\s*%s)|\\ExecuteBibliographyOptions\s*%s"
-                % (BRACE_CONTENT_PATTERN, BRACE_CONTENT_PATTERN, BRACE_CONTENT_PATTERN),
+                % (SKIPPED_BRACES, SKIPPED_BRACES, SKIPPED_BRACES),
                 re.DOTALL,
             ),
         ),
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index c92cb65..53cb873 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -90,7 +90,11 @@ PATTERNS = {
         re.DOTALL,
     ),
     "newtheoremstyle": re.compile(r"\\newtheoremstyle\*?{", re.DOTALL),
-    "crefname": re.compile(r"\\[cC]refname{([^}]*)}{([^}]*)}(?:{([^}]*)})?", re.DOTALL),
+    "crefname": re.compile(
+        r"\\[cC]refname\s*{([^}]*)}\s*%s(?:\s*%s)?"
+        % (("{((?:[^{}]|{[^{}]*})*|[^}]*)}",) * 2),
+        re.DOTALL,
+    ),
     "newtoks": re.compile(
         r"\\newtoks\s*(%s)" % (command_with_opt_brace_pattern), re.DOTALL
     ),
-- 
2.43.0


From 5511a64b17371ff435762a0af7c138d2e50cfd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:00 +0000
Subject: [PATCH 110/132] fix: verbatim* environments hold code too

---
 latex2json/parser/handlers/code_block.py | 4 ++--
 latex2json/utils/tex_utils.py            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/code_block.py b/latex2json/parser/handlers/code_block.py
index 9e3225c..8afd7ea 100644
--- a/latex2json/parser/handlers/code_block.py
+++ b/latex2json/parser/handlers/code_block.py
@@ -5,7 +5,7 @@ from latex2json.parser.handlers.base import TokenHandler
 # Compile patterns for code blocks
 PATTERNS = {
     "verbatim_env": re.compile(
-        r"\\begin\s*\{verbatim\}(.*?)\\end\s*\{verbatim\}", re.DOTALL
+        r"\\begin\s*\{(verbatim\*?)\}(.*?)\\end\s*\{\1\}", re.DOTALL
     ),
     "lstlisting": re.compile(
         r"\\begin\s*\{lstlisting\}(?:\[([^\]]*)\])?(.*?)\\end\s*\{lstlisting\}",
@@ -32,7 +32,7 @@ class CodeBlockHandler(TokenHandler):
                 if pattern_name == "verbatim_env":
                     return {
                         "type": "code",
-                        "content": match.group(1).strip(),
+                        "content": match.group(2).strip(),
                     }, match.end()
 
                 elif pattern_name == "verb_command":
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 45bfe02..17126bb 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -6,7 +6,7 @@ from latex2json.utils.encoding import detect_encoding, read_file
 
 
 VERBATIM_TEXT_PATTERN = re.compile(
-    r"(?P<verbatim>\\begin\s*\{(?P<env>verbatim|lstlisting)\}.*?\\end\s*\{(?P=env)\}"
+    r"(?P<verbatim>\\begin\s*\{(?P<env>verbatim\*?|lstlisting)\}.*?\\end\s*\{(?P=env)\}"
     r"|\\verb\*?(?P<delim>[^a-zA-Z\s*{}])[^\n]*?(?P=delim))"
     r"|\\.",
     re.DOTALL,
@@ -350,7 +350,7 @@ def is_escaped(pos: int, text: str) -> bool:
 # a comment (also a comment environment), or anything whose % signs do not start one:
 # verbatim text, urls, escaped characters
 COMMENT_PATTERN = re.compile(
-    r"\\begin\s*\{(verbatim|lstlisting)\}.*?\\end\s*\{\1\}"
+    r"\\begin\s*\{(verbatim\*?|lstlisting)\}.*?\\end\s*\{\1\}"
     r"|\\verb\*?([^a-zA-Z\s*])[^\n]*?\2"
     r"|\\(?:url|path|href)\s*(?:\[[^\]{}\n]*\]\s*)?\{(?:[^{}\n]|\{[^{}\n]*\})*\}"
     r"|(?P<comment>%[^\n\r\v\f\x1c-\x1e\x85\u2028\u2029]*"
-- 
2.43.0


From a1a7f127f766402dbcf7b9fedc7cfef560049fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:00 +0000
Subject: [PATCH 111/132] fix: \documentclass in verbatim code is not the
 document's class

---
 latex2json/parser/tex_preprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 554398f..4754d71 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -100,11 +100,13 @@ class LatexPreprocessor:
         # 1. Strip comments
         content = strip_latex_comments(content)
 
-        # 2. Check for documentclass (only once at the start)
+        # 2. Check for documentclass (only once at the start), but not in verbatim environments
+        content, verbatim_blocks = self.extract_verbatim_blocks(content)
         end_pos, out_tokens = self._check_documentclass(content, file_dir)
         if end_pos > 0:
             # keep what comes before it e.g. definitions
             content = DOCUMENTCLASS_PATTERN.sub("", content, count=1)
+        content = restore_placeholder_blocks(content, verbatim_blocks)
 
         # 3. Process all definitions and expand commands
         content, tokens = self._process_definitions_and_expand(content, file_dir)
-- 
2.43.0


From 20a17b3968781497f3353704eafdbb3de49b2a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:33 +0000
Subject: [PATCH 112/132] fix: line breaks right before words that are names of
 commands

---
 latex2json/parser/tex_parser.py       |  3 ++-
 latex2json/parser/tex_preprocessor.py |  3 ++-
 latex2json/utils/tex_utils.py         | 22 ++++++++++++++++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 3a74974..2700011 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -32,6 +32,7 @@ from latex2json.utils.tex_utils import (
     extract_nested_content,
     is_escaped,
     read_tex_file_content,
+    separate_line_breaks,
     strip_latex_comments,
 )
 from latex2json.parser.tex_preprocessor import (
@@ -606,7 +607,7 @@ class LatexParser:
         if not isinstance(content, str):
             return content
 
-        content = strip_latex_comments(content)
+        content = separate_line_breaks(strip_latex_comments(content))
 
         if preprocess:
             content = self.preprocess(content)
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 4754d71..b5991fd 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -22,6 +22,7 @@ from latex2json.parser.handlers import (
 from latex2json.utils.tex_utils import (
     check_string_has_hash_number,
     is_escaped,
+    separate_line_breaks,
     strip_latex_comments,
     normalize_whitespace_and_lines,
 )
@@ -98,7 +99,7 @@ class LatexPreprocessor:
             tuple: (processed_content, list of definition tokens)
         """
         # 1. Strip comments
-        content = strip_latex_comments(content)
+        content = separate_line_breaks(strip_latex_comments(content))
 
         # 2. Check for documentclass (only once at the start), but not in verbatim environments
         content, verbatim_blocks = self.extract_verbatim_blocks(content)
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 17126bb..209f7e6 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -389,6 +389,28 @@ def strip_latex_comments(text: str) -> str:
     return "\n".join(_rstrip_line(line) for line in text.splitlines())
 
 
+# a line break followed by what would make a command with its second backslash
+UNSEPARATED_LINE_BREAK_PATTERN = re.compile(r"\\\\[a-zA-Z,;:!/-]")
+
+
+def separate_line_breaks(text: str) -> str:
+    r"""
+    Put a space after line breaks that stand right before text e.g. \\item -> \\ item,
+    which is the word "item" on a new line and not \item.
+    """
+    if not UNSEPARATED_LINE_BREAK_PATTERN.search(text):
+        return text
+    return COMMENT_PATTERN.sub(
+        lambda m: (
+            "\\\\ "
+            if m.group(0) == "\\\\"
+            and UNSEPARATED_LINE_BREAK_PATTERN.match(text, m.start())
+            else m.group(0)
+        ),
+        text,
+    )
+
+
 def flatten_all_to_string(tokens: List[Dict | str | List] | str) -> str:
     if isinstance(tokens, str):
         return tokens
-- 
2.43.0


From 1d310d5a8d23a95ee2abd0d74b1456bc36121807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:33 +0000
Subject: [PATCH 113/132] fix: \DeclareOption* has one argument

---
 latex2json/parser/handlers/formatting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index c8cc15f..a11c6e4 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -561,6 +561,8 @@ class FormattingHandler(TokenHandler):
         cmd = match.group(1)
         start_pos = match.end() - 1
         N_blocks = declare_pattern_N_blocks.get(cmd, 1)
+        if cmd == "DeclareOption" and "*" in match.group(0):
+            N_blocks = 1  # \DeclareOption*{code} names no option
         blocks, end_pos = extract_nested_content_sequence_blocks(
             content[start_pos:], "{", "}", max_blocks=N_blocks
         )
-- 
2.43.0


From a92c32074496602befed596b93b069fc0dd39ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:35 +0000
Subject: [PATCH 114/132] fix: numbers with any number of digits

---
 latex2json/parser/handlers/content_command.py |  4 ++--
 latex2json/parser/handlers/environment.py     |  6 ++++--
 latex2json/parser/handlers/formatting.py      |  3 ++-
 latex2json/parser/handlers/new_definition.py  |  4 +++-
 latex2json/parser/handlers/tabular.py         |  3 ++-
 latex2json/parser/handlers/text_formatting.py |  9 ++++++++-
 latex2json/parser/packages/boxes.py           |  5 +++--
 latex2json/utils/tex_utils.py                 | 16 +++++++++++++++-
 8 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 34d2b2c..bc8ee97 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -2,7 +2,7 @@ import re
 from collections import OrderedDict
 from typing import Callable, Dict, Optional, Tuple
 from latex2json.parser.handlers.base import TokenHandler
-from latex2json.utils.tex_utils import extract_nested_content
+from latex2json.utils.tex_utils import extract_nested_content, parse_int
 
 SECTION_LEVELS = {
     "part": 0,
@@ -260,7 +260,7 @@ class ContentCommandHandler(TokenHandler):
             page_number = None
             if options:
                 page_match = re.search(r"page=(\d+)", options)
-                page_number = int(page_match.group(1)) if page_match else None
+                page_number = parse_int(page_match.group(1)) if page_match else None
                 if page_number is not None:
                     return {
                         "type": "includegraphics",
diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 8b20522..a81f477 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -2,11 +2,13 @@ import re
 from typing import Callable, Dict, List, Optional, Set, Tuple
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.utils.tex_utils import (
+    MAX_NUM_ARGS,
     extract_args,
     extract_nested_content,
     extract_nested_content_pattern,
     extract_nested_content_sequence_blocks,
     find_matching_env_block,
+    parse_int,
     substitute_args,
 )
 import logging
@@ -590,8 +592,8 @@ class EnvironmentHandler(BaseEnvironmentHandler):
         )
         if blocks:
             first_arg = blocks[0].strip()
-            if first_arg.isdigit():
-                token["num_args"] = int(first_arg)
+            if first_arg.isdecimal():
+                token["num_args"] = parse_int(first_arg, MAX_NUM_ARGS)
             for block in blocks[1:]:
                 token["optional_args"].append(block.strip())
 
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index a11c6e4..00de701 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -17,6 +17,7 @@ from latex2json.parser.patterns import (
 from latex2json.utils.tex_utils import (
     extract_nested_content,
     extract_nested_content_sequence_blocks,
+    parse_int,
 )
 import decimal
 
@@ -381,7 +382,7 @@ class FormattingHandler(TokenHandler):
             if "round-precision" in options:
                 precision_match = re.search(r"round-precision\s*=\s*(\d+)", options)
                 if precision_match:
-                    precision = int(precision_match.group(1))
+                    precision = parse_int(precision_match.group(1), 100)
                     decimal_num = decimal.Decimal(number)
                     quantizer = decimal.Decimal("0." + "0" * precision)
                     rounded = decimal_num.quantize(
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 53cb873..caa85b3 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -7,9 +7,11 @@ from latex2json.parser.patterns import (
     command_with_opt_brace_pattern,
 )
 from latex2json.utils.tex_utils import (
+    MAX_NUM_ARGS,
     extract_nested_content,
     extract_nested_content_pattern,
     extract_nested_content_sequence_blocks,
+    parse_int,
 )
 
 
@@ -414,7 +416,7 @@ class NewDefinitionHandler(TokenHandler):
         # Add number of arguments if specified
         num_args = 0
         if match.group(3):
-            num_args = int(match.group(3))
+            num_args = parse_int(match.group(3), MAX_NUM_ARGS)
 
         # Add default values if present
         defaults = []
diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 31e79ca..3fcb121 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -9,6 +9,7 @@ from latex2json.utils.tex_utils import (
     find_matching_env_block,
     is_escaped as is_escaped_char,
     mask_verbatim,
+    parse_int,
 )
 
 
@@ -205,7 +206,7 @@ def unwrap_span(content: str, pattern: re.Pattern) -> Tuple[str, str, int]:
         inner = blocks[-1] if blocks else ""
         prefix = content[match.start() : start_pos + end_pos - len(inner) - 1]
         content = content[: match.start()] + inner + content[start_pos + end_pos :]
-        return prefix, content.strip(), int(match.group(1))
+        return prefix, content.strip(), parse_int(match.group(1))
     return "", content, 1
 
 
diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index 9bd44d1..8ff952c 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -11,6 +11,7 @@ from latex2json.utils.tex_utils import (
     extract_nested_content_sequence_blocks,
     flatten_all_to_string,
     flatten_group_token,
+    parse_int,
     strip_latex_newlines,
 )
 
@@ -71,6 +72,10 @@ PATTERNS = {
 }
 
 
+# larger numbers would be long rows of m, and are kept as they are
+MAX_ROMAN_NUMERAL = 100000
+
+
 # Method 2: Using str.lstrip() with len comparison
 def find_first_nonspace(s):
     return len(s) - len(s.lstrip())
@@ -293,7 +298,9 @@ class TextFormattingHandler(TokenHandler):
         }, total_pos
 
     def _handle_roman_numerals(self, content: str, match: re.Match) -> Tuple[str, int]:
-        numeral = int(match.group(1))
+        numeral = parse_int(match.group(1))
+        if numeral > MAX_ROMAN_NUMERAL:
+            return {"type": "text", "content": match.group(1)}, match.end()
 
         roman_numeral = int_to_roman(numeral)
         return {"type": "text", "content": roman_numeral}, match.end()
diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index b9c0d4e..e3cb657 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -9,6 +9,7 @@ from latex2json.utils.tex_utils import (
     extract_nested_content,
     extract_delimited_args,
     find_matching_env_block,
+    parse_int,
     strip_latex_newlines,
 )
 
@@ -231,7 +232,7 @@ class BoxHandler(TokenHandler):
     def _handle_show_box(self, match: re.Match) -> Tuple[Any, int]:
         command, number, name = match.groups()
         if number is not None:
-            boxes, key = self.numbered_boxes, int(number)
+            boxes, key = self.numbered_boxes, parse_int(number)
         else:
             boxes, key = self.saved_boxes, name
         if key not in boxes:
@@ -254,7 +255,7 @@ class BoxHandler(TokenHandler):
         save_box_dict = self.saved_boxes
         is_digit = box_name.isdigit()
         if is_digit:
-            box_name = int(box_name)
+            box_name = parse_int(box_name)
             save_box_dict = self.numbered_boxes
         else:
             box_name = parse_varname_from_brace_or_backslash(box_name)
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 209f7e6..0737131 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -28,6 +28,20 @@ def is_escaped(pos: int, text: str) -> bool:
     return count_preceding_backslashes(text, pos) % 2 == 1
 
 
+# the largest number of TeX
+MAX_TEX_INT = 2**31 - 1
+# the largest number of arguments of a command or environment
+MAX_NUM_ARGS = 9
+
+
+def parse_int(digits: str, max_value: int = MAX_TEX_INT) -> int:
+    """int() for a number in a document, which may have any number of digits"""
+    digits = digits.strip().lstrip("0")
+    if len(digits) > 10:
+        return max_value
+    return min(int(digits or "0"), max_value)
+
+
 def find_matching_delimiter(
     text: str, open_delim: str = "{", close_delim: str = "}", start: int = 0
 ) -> Tuple[int, int]:
@@ -569,7 +583,7 @@ def substitute_args(definition: str, args: List[str], math_mode=False) -> str:
         hashes = match.group(2)
         number = match.group(3)
         if len(hashes) == min_hashes:
-            arg_index = int(number) - 1  # convert to 0-based index
+            arg_index = parse_int(number) - 1  # convert to 0-based index
             if arg_index >= len(args):
                 return match.group(0)
             # Retrieve the replacement text.
-- 
2.43.0


From faab49bd13df46e756bc3a372d1f7b1efa36d0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:10 +0000
Subject: [PATCH 115/132] fix: \u escapes of surrogates are no characters

---
 latex2json/latex_maps/latex_unicode_converter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/latex_maps/latex_unicode_converter.py b/latex2json/latex_maps/latex_unicode_converter.py
index 045dc3b..c6ff177 100644
--- a/latex2json/latex_maps/latex_unicode_converter.py
+++ b/latex2json/latex_maps/latex_unicode_converter.py
@@ -77,7 +77,9 @@ class LatexUnicodeConverter:
             # Handle Unicode escape sequences
             if pattern_type == "unicode":
                 try:
-                    return chr(int(match.group(1), 16))
+                    char = chr(int(match.group(1), 16))
+                    # surrogates are no characters, and cannot be written
+                    return c if "\ud800" <= char <= "\udfff" else char
                 except (ValueError, IndexError):
                     return c
             # Handle regular LaTeX commands
-- 
2.43.0


From ecf23a496fd31e50494fbab8b2321edb03e663ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:05 +0000
Subject: [PATCH 116/132] fix: \input without a file name

---
 latex2json/parser/tex_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 2700011..f67d70e 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -821,7 +821,9 @@ class LatexParser:
         """
 
         def include(match: re.Match) -> str:
-            name = (match.group(1) or match.group(2)).strip()
+            name = (match.group(1) or match.group(2) or "").strip()
+            if not name:
+                return ""
             path = os.path.abspath(os.path.join(self.current_file_dir, name))
             if not should_preprocess_file(path):
                 return match.group(0)
-- 
2.43.0


From eaf75fca8ccb82590583bab3963093f645301c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:21 +0000
Subject: [PATCH 117/132] fix: files and bibliographies that include themselves

---
 latex2json/parser/tex_parser.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index f67d70e..a080267 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -89,6 +89,10 @@ class LatexParser:
         # color definitions via \definecolor
         self.colors = {}  # e.g. {"mycolor": {"format": "HTML", "value": "FF0000"}}
 
+        # files that are being parsed i.e. that cannot be part of themselves
+        self._open_files: Set[str] = set()
+        self._in_bib_file = False
+
         # Bib parser
         self.bib_parser = BibParser(logger=self.logger)
 
@@ -150,6 +154,8 @@ class LatexParser:
         self.current_str = ""
         self.current_file_dir = None
         self.current_env = None
+        self._open_files = set()
+        self._in_bib_file = False
 
         self.command_manager.clear()
         # handlers
@@ -355,6 +361,9 @@ class LatexParser:
             Dict with bibliography token containing parsed contents
         """
         all_tokens = []
+        if self._in_bib_file:
+            # a bibliography is not part of its entries
+            return {"type": "bibliography", "content": all_tokens}
 
         # Handle comma-separated list of files or single file
         file_paths = [p.strip() for p in file_path.split(",") if p.strip()]
@@ -367,6 +376,7 @@ class LatexParser:
                 else path
             )
 
+            self._in_bib_file = True
             try:
                 entries = self.bib_parser.parse_file(full_path)
                 all_tokens.extend(
@@ -376,6 +386,8 @@ class LatexParser:
                 self.logger.warning(
                     f"Failed to parse bibliography file: {full_path}, error: {str(e)}"
                 )
+            finally:
+                self._in_bib_file = False
 
         # check and remove duplicate cite_keys
         cite_keys = set()
@@ -860,10 +872,16 @@ class LatexParser:
         Returns:
             List[Dict[str, str]]: List of parsed tokens
         """
+        file_abspath = os.path.abspath(str(file_path))
+        file_key = file_abspath.removesuffix(extension)
+        if file_key in self._open_files:
+            self.logger.warning(f"File includes itself: {file_path}")
+            return []
+
+        self._open_files.add(file_key)
         try:
             self.logger.info(f"Parsing file: {file_path}, ext: {extension}")
 
-            file_abspath = os.path.abspath(file_path)
             if not self.current_file_dir:
                 self.current_file_dir = os.path.dirname(file_abspath)
 
@@ -887,6 +905,8 @@ class LatexParser:
             )
             self.logger.warning(f"Continuing from failed parse at {file_path}")
             return []
+        finally:
+            self._open_files.discard(file_key)
 
 
 def should_preprocess_file(file_path: str) -> bool:
-- 
2.43.0


From 593a4db6e715bc54ef0567356b2a565330288cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:03 +0000
Subject: [PATCH 118/132] fix: names of biblatex entries with accents, prefixes
 or without given name

---
 latex2json/parser/bib/compiled_bibtex.py | 38 ++++++++++++++++++++----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/latex2json/parser/bib/compiled_bibtex.py b/latex2json/parser/bib/compiled_bibtex.py
index 951a914..3a5f7f2 100644
--- a/latex2json/parser/bib/compiled_bibtex.py
+++ b/latex2json/parser/bib/compiled_bibtex.py
@@ -14,6 +14,23 @@ PATTERNS_TO_REPLACE = {
 }
 
 
+# first letter of a name with its accent e.g. \'E of \'Elie, {\'E} of {\'E}lie or \v{S} of \v{S}ime
+INITIAL_PATTERN = re.compile(
+    r"""\{\s*\\(?:[^{}]|\{[^{}]*\})*\}  # {\'E}
+    |\\[^a-zA-Z]\s*(?:\{[^{}]*\}|\\[a-zA-Z]+|[^{}])  # \'E, \'{E}, \'\i
+    |\\[a-zA-Z]\s*\{[^{}]+\}  # \v{S}
+    |\\[bcdHkrtuv]\s+\w  # \v S
+    |\\[a-zA-Z]+  # \O
+    |[^\s{}\\]""",
+    re.VERBOSE,
+)
+
+
+def get_initial(name: str) -> str:
+    match = INITIAL_PATTERN.search(name)
+    return match.group(0) if match else ""
+
+
 def apply_pattern_replacements(text):
     """
     Apply all the pattern replacements defined in PATTERNS_TO_REPLACE to the input text.
@@ -59,7 +76,7 @@ def parse_compiled_bibtex_entry(entry_text):
             entry_text[start_pos:], "{", "}", max_blocks=3
         )
 
-        author_blocks = author_blocks[2]
+        author_blocks = author_blocks[-1] if author_blocks else ""
 
         if author_blocks:
             # find the hash stuff
@@ -74,13 +91,22 @@ def parse_compiled_bibtex_entry(entry_text):
                     # Extract family and given names
                     family_match = re.search(r"(family=)\{([^}]+)\}", auth_block)
                     given_match = re.search(r"(given=)\{([^}]+)\}", auth_block)
-                    if family_match and given_match:
+                    if family_match:
                         start_pos = family_match.end(1)
                         family, _ = extract_nested_content(auth_block[start_pos:])
-                        start_pos = given_match.end(1)
-                        given, _ = extract_nested_content(auth_block[start_pos:])
-                        given = given[:1] + "."
-                        authors.append(f"{family}, {given}")
+                        given = ""
+                        if given_match:
+                            start_pos = given_match.end(1)
+                            given, _ = extract_nested_content(auth_block[start_pos:])
+                            given = get_initial(given or "")
+                        prefix_match = re.search(r"prefix=(?=\{)", auth_block)
+                        if prefix_match:
+                            prefix, _ = extract_nested_content(
+                                auth_block[prefix_match.end() :]
+                            )
+                            family = f"{prefix} {family}"  # e.g. von Neumann
+                        # e.g. an organisation has no given name
+                        authors.append(f"{family}, {given}." if given else family)
 
         if authors:
             entry["author"] = " and ".join(authors)
-- 
2.43.0


From a4714c3e5bc0b8bac69fd9f36187936c033f9c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:03 +0000
Subject: [PATCH 119/132] fix: percent signs in \verb values of biblatex
 entries

---
 latex2json/parser/bib/bib_parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index ef75df0..445705c 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -18,11 +18,19 @@ from latex2json.utils.tex_utils import (
 )
 
 
+# value in biblatex entries, where % does not start a comment e.g. \verb http://a.b/c%20d
+VERB_VALUE_PATTERN = re.compile(r"(^[ \t]*\\verb[ \t]+\S.*$)", re.MULTILINE)
+
+
 def preprocess(content: str) -> str:
     """Preprocess content to remove comments and normalize whitespace"""
     if BibTexParser.is_bibtex(content) and not is_compiled_bibtex(content):
         # % does not start a comment in bibtex values, e.g. urls
         content = re.sub(r"^[ \t]*%.*$", "", content, flags=re.MULTILINE)
+    elif is_compiled_bibtex(content):
+        parts = VERB_VALUE_PATTERN.split(content)
+        parts[::2] = [strip_latex_comments(part) for part in parts[::2]]
+        content = "\n".join(parts)
     else:
         content = strip_latex_comments(content)
     content = normalize_whitespace_and_lines(content)
-- 
2.43.0


From 0b86f50dbef57eb5b08d18384e6049d9db7519ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:03 +0000
Subject: [PATCH 120/132] fix: blanks of the parts of a BibTeX value joined by
 #

---
 latex2json/parser/bib/bibtex_parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/latex2json/parser/bib/bibtex_parser.py b/latex2json/parser/bib/bibtex_parser.py
index 0730c45..1e79943 100644
--- a/latex2json/parser/bib/bibtex_parser.py
+++ b/latex2json/parser/bib/bibtex_parser.py
@@ -109,7 +109,6 @@ class BibTexParser:
                 if part is None:
                     # unbalanced braces
                     return value, pos + 1
-                part = part.strip()
                 pos += end_pos
             elif quoted:
                 # quotes inside of braces belong to the value
@@ -192,7 +191,7 @@ class BibTexParser:
 
                 value, pos = self._parse_value(fields_text, field_start, strings)
                 if value is not None:
-                    fields[field_name] = value
+                    fields[field_name] = value.strip()
 
                 # Skip trailing comma and whitespace
                 while pos < len(fields_text) and (
-- 
2.43.0


From d8fd3f82d5df0c0c75544721ac0641c48fa7bcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:03 +0000
Subject: [PATCH 121/132] fix: \bib* entries

---
 latex2json/parser/bib/bibdiv_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/bib/bibdiv_parser.py b/latex2json/parser/bib/bibdiv_parser.py
index cfd894e..28eed76 100644
--- a/latex2json/parser/bib/bibdiv_parser.py
+++ b/latex2json/parser/bib/bibdiv_parser.py
@@ -9,7 +9,7 @@ from latex2json.utils.tex_utils import (
 from latex2json.parser.bib.bibtex_parser import BibTexEntry
 
 BibDivPattern = re.compile(r"\\begin\s*{(?:bibdiv|biblist)}")
-BibPattern = re.compile(r"\\bib\s*\{([^}]+)\}\s*\{([^}]+)\}")
+BibPattern = re.compile(r"\\bib\*?\s*\{([^}]+)\}\s*\{([^}]+)\}")
 
 
 def strip_braces(value: str) -> str:
-- 
2.43.0


From 489732865a97737a38161782e92d33b79ef6bdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:03 +0000
Subject: [PATCH 122/132] fix: page options of \includegraphics with blanks or
 braces

---
 latex2json/parser/handlers/content_command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index bc8ee97..7797e45 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -259,7 +259,7 @@ class ContentCommandHandler(TokenHandler):
             options = match.group(1)
             page_number = None
             if options:
-                page_match = re.search(r"page=(\d+)", options)
+                page_match = re.search(r"page\s*=\s*\{?\s*(\d+)", options)
                 page_number = parse_int(page_match.group(1)) if page_match else None
                 if page_number is not None:
                     return {
-- 
2.43.0


From 36f09a8f4cc517ae44a5bac542035b0324e211ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:27 +0000
Subject: [PATCH 123/132] fix: blanks before the star or the option of a
 command

---
 .../parser/handlers/command_processor.py      |  2 +-
 latex2json/parser/handlers/content_command.py | 26 +++++++++----------
 latex2json/parser/handlers/environment.py     |  2 +-
 latex2json/parser/handlers/formatting.py      |  6 ++---
 latex2json/parser/packages/boxes.py           |  2 +-
 latex2json/parser/packages/titlesec.py        |  6 ++---
 6 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 1b6b53e..38c3536 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -317,7 +317,7 @@ class CommandProcessor:
         self, command_name: str, left_delim: str, right_delim: str
     ):
         r"""Process a paired delimiter command like \br{content}"""
-        usage_pattern = r"\\" + re.escape(command_name) + r"\*?\s*{"
+        usage_pattern = r"\\" + re.escape(command_name) + r"\s*\*?\s*{"
 
         def handler(
             match: re.Match[str], text: str, math_mode: bool = False
diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 7797e45..5c326a5 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -29,22 +29,22 @@ RAW_PATTERNS = OrderedDict(
     [
         # 1. Commands that need nested brace handling (simplified patterns)
         ("abstract", r"\\abstract\s*{"),
-        ("section", r"\\(?:(?:sub)*section\*?)\s*%s{" % SHORT_TITLE_PATTERN),
-        ("part", r"\\part\*?\s*%s{" % SHORT_TITLE_PATTERN),
-        ("chapter", r"\\chapter\*?\s*%s{" % SHORT_TITLE_PATTERN),
-        ("paragraph", r"\\(?:(?:sub)*paragraph\*?)\s*%s{" % SHORT_TITLE_PATTERN),
-        ("footnote", r"\\footnote\*?%s\s*{" % OPTIONAL_BRACE_PATTERN),
-        ("caption", r"\\(caption|subcaption)\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("section", r"\\(?:(?:sub)*section\s*\*?)\s*%s{" % SHORT_TITLE_PATTERN),
+        ("part", r"\\part\s*\*?\s*%s{" % SHORT_TITLE_PATTERN),
+        ("chapter", r"\\chapter\s*\*?\s*%s{" % SHORT_TITLE_PATTERN),
+        ("paragraph", r"\\(?:(?:sub)*paragraph\s*\*?)\s*%s{" % SHORT_TITLE_PATTERN),
+        ("footnote", r"\\footnote\s*\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("caption", r"\\(caption|subcaption)\s*\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
             "captionof",
-            r"\\captionof\*?\s*{([^}]*?)}\s*%s\s*{" % OPTIONAL_BRACE_PATTERN,
+            r"\\captionof\s*\*?\s*{([^}]*?)}\s*%s\s*{" % OPTIONAL_BRACE_PATTERN,
         ),
         # input
         ("input_file", r"\\(?:input|include)\s*{"),
         ("input_file_name", r"\\input\s+([^\s{}\\]+)"),
         # REFs
-        ("ref", r"\\(?:auto|eq|page)?ref\*?\s*{"),
-        ("cref", r"\\[cC]ref\*?\s*{"),
+        ("ref", r"\\(?:auto|eq|page)?ref\s*\*?\s*{"),
+        ("cref", r"\\[cC]ref\s*\*?\s*{"),
         ("hyperref", r"\\hyperref\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
             "href",
@@ -58,13 +58,13 @@ RAW_PATTERNS = OrderedDict(
             % OPTIONAL_BRACE_PATTERN,
         ),
         # footnotes
-        ("footnotemark", r"\\footnotemark(?![a-zA-Z])%s" % OPTIONAL_BRACE_PATTERN),
-        ("footnotetext", r"\\footnotetext%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("footnotemark", r"\\footnotemark(?![a-zA-Z])(?:\s*(?=\[))?%s" % OPTIONAL_BRACE_PATTERN),
+        ("footnotetext", r"\\footnotetext\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         # URLs
         ("url", r"\\(?:url|path)\s*{"),
         ("doi", r"\\doi\s*{"),
         # Graphics
-        ("includegraphics", r"\\includegraphics\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("includegraphics", r"\\includegraphics\s*\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("includepdf", r"\\includepdf\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("graphicspath", r"\\graphicspath\s*{"),  # ignore?
         # Citations
@@ -170,7 +170,7 @@ class ContentCommandHandler(TokenHandler):
             }
         elif matched_type in ["section", "chapter", "part"]:
             level = command.count("sub") + SECTION_LEVELS[matched_type]
-            numbered = (matched_type + "*") not in command
+            numbered = "*" not in command
             return {
                 "type": "section",
                 "title": content,
diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index a81f477..3f82acf 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -28,7 +28,7 @@ ENVIRONMENT_PATTERN = re.compile(
 )
 
 NEW_ENVIRONMENT_PATTERN = re.compile(
-    r"\\(?:new|renew|provide)environment\*?\s*\{([^}]*?)\}",
+    r"\\(?:new|renew|provide)environment\s*\*?\s*\{([^}]*?)\}",
 )
 
 LIST_ENVIRONMENTS = ["itemize", "enumerate", "description"]
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 00de701..ec8db13 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -97,7 +97,7 @@ RAW_PATTERNS = OrderedDict(
         ),
         (
             "page",
-            r"\\enlargethispage\*?\s*%s|" % SKIPPED_BRACES
+            r"\\enlargethispage\s*\*?\s*%s|" % SKIPPED_BRACES
             + r"\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|samepage|thepage|noindent|par|clearpage|cleardoublepage|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)\b",
         ),
         (
@@ -169,7 +169,7 @@ RAW_PATTERNS = OrderedDict(
             "spacing",
             r"\\(?:"
             r"(?:quad|qquad|xspace|space)(?![a-zA-Z@])|,|;|:|\!|"  # \quad, \qquad, \, \; \:
-            r"hspace\*?\s*%s|"  # \hspace{length}
+            r"hspace\s*\*?\s*%s|"  # \hspace{length}
             r"hskip(?:%s|\s*%s)"  # \hskip 10pt
             % (NESTED_BRACES, SKIP_AMOUNT, number_points_suffix)
             + r"|linespread\s*\{[^}]*\}"  # Added \linespread{...}
@@ -289,7 +289,7 @@ RAW_PATTERNS = OrderedDict(
         ("stackmath", r"\\stackMath\b"),
         ("hyphenation", r"\\hyphenation\s*{"),
         # Handle vspace separately
-        ("vspace", r"\\vspace\*?\s*%s" % NESTED_BRACES),
+        ("vspace", r"\\vspace\s*\*?\s*%s" % NESTED_BRACES),
         ("phantom", r"\\(?:hphantom|vphantom|phantom)\s*{"),
         (
             "raise",
diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index e3cb657..07d9ca1 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -31,7 +31,7 @@ BOX_DELIMITERS = {
 }
 
 BOX_PATTERN = re.compile(
-    r"\\(%s)\*?\s*[\[\{]" % "|".join(BOX_DELIMITERS.keys()), re.VERBOSE | re.DOTALL
+    r"\\(%s)\s*\*?\s*[\[\{]" % "|".join(BOX_DELIMITERS.keys()), re.VERBOSE | re.DOTALL
 )
 
 # Add fancyhead pattern
diff --git a/latex2json/parser/packages/titlesec.py b/latex2json/parser/packages/titlesec.py
index b55162b..74c8564 100644
--- a/latex2json/parser/packages/titlesec.py
+++ b/latex2json/parser/packages/titlesec.py
@@ -23,10 +23,10 @@ r"""
 """
 
 PATTERNS = {
-    "titleformat": re.compile(r"\\titleformat(\*?)\s*{", re.DOTALL),
-    "titlespacing": re.compile(r"\\titlespacing\*?\s*{", re.DOTALL),
+    "titleformat": re.compile(r"\\titleformat\s*(\*?)\s*{", re.DOTALL),
+    "titlespacing": re.compile(r"\\titlespacing\s*\*?\s*{", re.DOTALL),
     "titlelabel": re.compile(r"\\titlelabel\s*{", re.DOTALL),
-    "titlecontents": re.compile(r"\\titlecontents\*?\s*{", re.DOTALL),
+    "titlecontents": re.compile(r"\\titlecontents\s*\*?\s*{", re.DOTALL),
     "titleline": re.compile(
         r"\\titleline\s*%s\s*{" % (OPTIONAL_BRACE_PATTERN), re.DOTALL
     ),
-- 
2.43.0


From 65447771bffe4af8d9317bc76c76699985b7f3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:50 +0000
Subject: [PATCH 124/132] fix: stars of \captionsetup and \setlist

---
 latex2json/parser/handlers/formatting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index ec8db13..564d1e7 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -78,7 +78,7 @@ RAW_PATTERNS = OrderedDict(
         ("today", r"\\today\b"),
         ("subjclass", r"\\subjclass\s*%s\s*%s" % (OPTIONAL_BRACE_PATTERN, SKIPPED_BRACES)),
         # Formatting commands
-        ("setup", r"\\(?:hypersetup|captionsetup)%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("setup", r"\\(?:hypersetup|captionsetup)\s*\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
             "make_or_contents",
             r"\\(?:(?:[a-zA-Z@]+)?maketitle|makeatletter|makeatother|tableofcontents|@title)\b",
@@ -137,7 +137,7 @@ RAW_PATTERNS = OrderedDict(
         ("lstset", r"\\lstset\s*{"),
         (
             "setlist",
-            r"\\setlist\s*%s\s*{" % OPTIONAL_BRACE_PATTERN,
+            r"\\setlist\s*\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN,
         ),  # Added setlist pattern
         (
             "value",
-- 
2.43.0


From e5553f2a4df701bfd9dd6e3b404a43873145b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:05 +0000
Subject: [PATCH 125/132] fix: brackets in the options of an lstlisting

---
 latex2json/parser/handlers/code_block.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/code_block.py b/latex2json/parser/handlers/code_block.py
index 8afd7ea..2da1b3e 100644
--- a/latex2json/parser/handlers/code_block.py
+++ b/latex2json/parser/handlers/code_block.py
@@ -1,6 +1,7 @@
 import re
 from typing import Callable, Dict, Optional, Tuple
 from latex2json.parser.handlers.base import TokenHandler
+from latex2json.parser.handlers.content_command import OPTIONAL_BRACE_PATTERN
 
 # Compile patterns for code blocks
 PATTERNS = {
@@ -8,7 +9,8 @@ PATTERNS = {
         r"\\begin\s*\{(verbatim\*?)\}(.*?)\\end\s*\{\1\}", re.DOTALL
     ),
     "lstlisting": re.compile(
-        r"\\begin\s*\{lstlisting\}(?:\[([^\]]*)\])?(.*?)\\end\s*\{lstlisting\}",
+        r"\\begin\s*\{lstlisting\}(?:[ \t]*(?=\[))?%s(.*?)\\end\s*\{lstlisting\}"
+        % OPTIONAL_BRACE_PATTERN,
         re.DOTALL,
     ),
     "verb_command": re.compile(
-- 
2.43.0


From 3505f2dfd5e71a0f25d339f97821b1a050d0ed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:44 +0000
Subject: [PATCH 126/132] fix: brackets in braces of optional arguments

---
 latex2json/parser/handlers/new_definition.py | 14 ++++++++++----
 latex2json/utils/tex_utils.py                |  8 ++++++++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index caa85b3..e83c9c6 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -15,9 +15,15 @@ from latex2json.utils.tex_utils import (
 )
 
 
+# default of an optional argument, whose braces may hold brackets e.g. [{[a]}]
+BRACES_PATTERN = r"(?:\\.|[^{}\\])*"
+for _ in range(6):
+    BRACES_PATTERN = r"(?:\\.|[^{}\\]|\{%s\})*" % BRACES_PATTERN
+DEFAULT_PATTERN = r"\[(?:\\.|[^\]{}\\]|\{%s\})*\]" % BRACES_PATTERN
+
 POST_NEW_COMMAND_PATTERN_STR = (
-    r"\s*\*?\s*(?:{%s}|%s)(?:\s*\[(\d+)\])?((?:\s*\[[^]]*\])*)\s*{"
-    % (command_pattern, command_pattern)
+    r"\s*\*?\s*(?:{%s}|%s)(?:\s*\[(\d+)\])?((?:\s*%s)*)\s*{"
+    % (command_pattern, command_pattern, DEFAULT_PATTERN)
 )
 
 DEF_COMMAND_PREFIX = (
@@ -421,8 +427,8 @@ class NewDefinitionHandler(TokenHandler):
         # Add default values if present
         defaults = []
         if match.group(4):
-            for default in re.finditer(r"\[(.*?)\]", match.group(4)):
-                defaults.append(default.group(1))
+            for default in re.finditer(DEFAULT_PATTERN, match.group(4)):
+                defaults.append(default.group(0)[1:-1])
 
         # Don't add negative lookahead for commands ending in special chars
         needs_lookahead = cmd_name[-1].isalnum()
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 0737131..f9c2abd 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -63,6 +63,7 @@ def find_matching_delimiter(
         return -1, -1
 
     stack = []
+    brackets = open_delim == "["
     i = start
     while i < len(text):
         if text[i] == "\\" and text.startswith(("\\verb", "\\begin"), i):
@@ -71,6 +72,13 @@ def find_matching_delimiter(
             if verbatim.group("verbatim") and not is_escaped(i, text):
                 i = verbatim.end()
                 continue
+        if brackets and text[i] == "{" and not is_escaped(i, text):
+            # brackets in braces do not count e.g. [see {[1]}, {a]b}]
+            _, end_pos = find_matching_delimiter(text, start=i)
+            if end_pos > 0:
+                i = end_pos
+                continue
+            brackets = False
         if text[i] == open_delim and not is_escaped(i, text):
             stack.append(i)
         elif text[i] == close_delim and not is_escaped(i, text):
-- 
2.43.0


From 9a4d710b5f210b0f86579dd66307abfa3d431b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:38 +0000
Subject: [PATCH 127/132] fix: braces within words

---
 latex2json/parser/patterns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 7637c6c..7b952f7 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -41,7 +41,7 @@ ASSIGNED_LENGTH = r"(?:\s*=?\s*%s%s|\s*=\s*[-+]?\s*%s%s)" % (
 # match $ or % or { or } only if not preceded by \
 # Update DELIM_PATTERN to also match double backslashes and opening braces {
 DELIM_PATTERN = re.compile(
-    r"(?<!\\)(?:\\\\|\$|%|(?:^|[ \t])\{|\s{|{}|\\(?![$%&_#{}\\]))"
+    r"(?<!\\)(?:\\\\|\$|%|(?:^|\s)?\{|\\(?![$%&_#{}\\]))"
 )
 
 # date after the name of a package or class e.g. \usepackage{pkg}[2020/01/01]
-- 
2.43.0


From 77fd799ca2f809c045bc38bb3e8d422de81a69c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:26 +0000
Subject: [PATCH 128/132] fix: commands in labels, citation keys and file names

---
 latex2json/parser/handlers/content_command.py |  3 +-
 latex2json/parser/tex_parser.py               | 32 ++++++++++++++++---
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 5c326a5..2f781e9 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -254,7 +254,8 @@ class ContentCommandHandler(TokenHandler):
         # GRAPHICS
         elif matched_type == "includegraphics":
             # braces only protect the dots of a file name e.g. {{fig.1}.png}
-            content = content.replace("{", "").replace("}", "")
+            if "\\" not in content:
+                content = content.replace("{", "").replace("}", "")
             # Extract page number from the optional parameters if present
             options = match.group(1)
             page_number = None
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index a080267..1f62ccf 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -180,8 +180,23 @@ class LatexParser:
         )
         return out
 
+    def _expand_key(self, key: str) -> str:
+        """Expand user defined commands in a label, citation key or file name"""
+        if "\\" not in key:
+            return key
+        return self._expand_command(key, ignore_unicode=True).strip()
+
+    def _expand_keys(self, keys: List[str]) -> List[str]:
+        expanded = []
+        for key in keys:
+            # a command may stand for several keys
+            parts = self._expand_key(key).split(",") if "\\" in key else [key]
+            expanded.extend(part.strip() for part in parts)
+        return expanded
+
     def _handle_label(self, content: str, tokens: List[Dict[str, str]]) -> None:
         """Handle labels by associating them with the current environment or adding them as a separate token"""
+        content = self._expand_key(content)
         if self.current_env:
             # Associate label with current environment
             if "labels" not in self.current_env:
@@ -339,12 +354,14 @@ class LatexParser:
 
     def _convert_bibentry_tokens(self, entry: BibTexEntry) -> Dict:
         content = entry.content
+        cite_key = entry.citation_key
         if entry.format == "bibitem":
             content = self.parse(content)
+            cite_key = self._expand_key(cite_key)
         return {
             "type": "bibitem",
             "format": entry.format,
-            "cite_key": entry.citation_key,
+            "cite_key": cite_key,
             "content": content,
             "label": entry.label,
             "fields": entry.fields,
@@ -423,11 +440,11 @@ class LatexParser:
                     ]
             elif token["type"] == "bibliography_file":
                 if token["content"]:
-                    token = self._parse_bib_file(token["content"])
+                    token = self._parse_bib_file(self._expand_key(token["content"]))
             elif token["type"] == "input_file":
                 # open input file
                 if token["content"]:
-                    file_path = token["content"]
+                    file_path = self._expand_key(token["content"])
                     if self.current_file_dir:
                         file_path = os.path.join(self.current_file_dir, file_path)
                     input_tokens = self.parse_file(file_path, extension=".tex")
@@ -445,10 +462,11 @@ class LatexParser:
                     token["title"] = self.parse(token["title"])
                 token["content"] = self._expand_command(token["content"])
             elif token["type"] == "ref":
-                token["content"] = [self._expand_command(c) for c in token["content"]]
+                token["content"] = self._expand_keys(token["content"])
                 if "title" in token:
                     token["title"] = self.parse(token["title"])
             elif token["type"] == "citation":
+                token["content"] = self._expand_keys(token["content"])
                 if "title" in token:
                     token["title"] = self.parse(token["title"])
             elif token["type"] == "title":
@@ -467,6 +485,12 @@ class LatexParser:
                     self._process_token(block, block_tokens)
                     token["placeholders"][key] = block_tokens
                 self.current_env = prev_env
+                if "labels" in token:
+                    token["labels"] = [self._expand_key(x) for x in token["labels"]]
+            elif token["type"] in ["includegraphics", "includepdf"]:
+                # remaining braces only protect the dots of a file name
+                file_name = self._expand_key(token["content"])
+                token["content"] = file_name.replace("{", "").replace("}", "")
             elif is_env_type:
                 # algorithmic keep as literal?
                 if token.get("content") and token["type"] not in [
-- 
2.43.0


From 71a12d51f30077923f6a4b9ca0bbb3f0eb9802d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:45 +0000
Subject: [PATCH 129/132] fix: arguments of subfigure, subtable and wrapfigure

---
 latex2json/parser/handlers/environment.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 3f82acf..80a7ffc 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -4,6 +4,7 @@ from latex2json.parser.handlers.base import TokenHandler
 from latex2json.utils.tex_utils import (
     MAX_NUM_ARGS,
     extract_args,
+    extract_delimited_args,
     extract_nested_content,
     extract_nested_content_pattern,
     extract_nested_content_sequence_blocks,
@@ -108,9 +109,11 @@ ENV_ARGS = {
     # "tabular": {"mandatory": 1},          # Expects 1 mandatory argument for column spec
     "table": {"optional": 1},  # Expects 1 optional argument for placement
     "figure": {"optional": 1},  # Expects 1 optional argument for placement
-    "subfigure": {"optional": 1, "mandatory": 1},
-    "subtable": {"optional": 1, "mandatory": 1},
-    "wrapfigure": {"optional": 1, "mandatory": 2},
+    # [pos][height][inner pos]{width}
+    "subfigure": {"optional": 3, "mandatory": 1},
+    "subtable": {"optional": 3, "mandatory": 1},
+    # [lines]{placement}[overhang]{width}
+    "wrapfigure": {"delimiters": "[{[{"},
     "adjustbox": {"mandatory": 1},  # Expects 1 mandatory argument for width
     # ... other environments with known argument patterns
     "CJK": {"mandatory": 2},
@@ -266,7 +269,12 @@ class BaseEnvironmentHandler(TokenHandler):
                     opt_args -= 1
 
             req_args = d.get("mandatory", 0)
-            args, end_pos = extract_args(inner_content, req_args, opt_args)
+            if "delimiters" in d:
+                delimiters = d["delimiters"][1:] if opt_found else d["delimiters"]
+                args, end_pos = extract_delimited_args(inner_content, delimiters)
+                args = {"req": [arg for arg in args if arg is not None]}
+            else:
+                args, end_pos = extract_args(inner_content, req_args, opt_args)
             if args["req"]:
                 token["args"] = args["req"]
             inner_content = inner_content[end_pos:]
-- 
2.43.0


From 078c6a3dfddf77926170f417e6f43a982f8a9bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:47:45 +0000
Subject: [PATCH 130/132] fix: blanks around labels

---
 latex2json/parser/tex_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 1f62ccf..e5bb64f 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -183,7 +183,7 @@ class LatexParser:
     def _expand_key(self, key: str) -> str:
         """Expand user defined commands in a label, citation key or file name"""
         if "\\" not in key:
-            return key
+            return key.strip()
         return self._expand_command(key, ignore_unicode=True).strip()
 
     def _expand_keys(self, keys: List[str]) -> List[str]:
-- 
2.43.0


From 9d8475cbd650c211fa0c4d5db0b550c8cc008de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:47:58 +0000
Subject: [PATCH 131/132] fix: names of theorems with a star

---
 latex2json/parser/handlers/environment.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 80a7ffc..d7684e0 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -227,8 +227,10 @@ class BaseEnvironmentHandler(TokenHandler):
 
     def _handle_environment(self, env_name: str, inner_content: str) -> None:
 
-        contains_asterisk = "*" in env_name
-        env_name = env_name.replace("*", "")
+        contains_asterisk = False
+        if env_name not in self._newtheorems:
+            contains_asterisk = "*" in env_name
+            env_name = env_name.replace("*", "")
 
         is_newtheorem = env_name in self._newtheorems
         is_unnumbered = contains_asterisk or env_name in self._unnumbered_theorems
-- 
2.43.0


From 883f27a48826f7f31e79a5c3fc274b4624a40dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:52:35 +0000
Subject: [PATCH 132/132] fix: brackets after the title of an item

---
 latex2json/parser/handlers/item.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/item.py b/latex2json/parser/handlers/item.py
index e619089..e89d703 100644
--- a/latex2json/parser/handlers/item.py
+++ b/latex2json/parser/handlers/item.py
@@ -45,9 +45,8 @@ class ItemHandler(BaseEnvironmentHandler):
                 if out_end_pos != -1:
                     end_pos = out_end_pos
 
-                token = self._handle_environment("item", content[start:end_pos].strip())
-                token["type"] = "item"
-                del token["name"]
+                # brackets after the title are text
+                token = {"type": "item", "content": content[start:end_pos].strip()}
                 if match.group(1):
                     token["title"] = content[match.start(1) : match.end(1)].strip()
                 return token, end_pos
-- 
2.43.0

