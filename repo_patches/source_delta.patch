From 7836a3a315237ed647539bb0825d3b0f984b08b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:31 +0000
Subject: [PATCH 01/33] fix: rewind after a failed inline link so no text is
 swallowed

---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 0aa50d3..af5531e 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -624,7 +624,7 @@ class InlineParser(object):
                 if self.spnl() and self.peek() == ')':
                     self.pos += 1
                     matched = True
-            else:
+            if not matched:
                 self.pos = savepos
 
         if not matched:
-- 
2.43.0


From 1b0839298849d034ea2074d565fc11fc2f6ee7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:33 +0000
Subject: [PATCH 02/33] fix: keep emphasis opener bounds per kind of closer

---
 commonmark/inlines.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index af5531e..92fa98b 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -357,13 +357,8 @@ class InlineParser(object):
             top['previous'] = bottom
 
     def processEmphasis(self, stack_bottom):
-        openers_bottom = {
-            '_': stack_bottom,
-            '*': stack_bottom,
-            "'": stack_bottom,
-            '"': stack_bottom,
-        }
-        odd_match = False
+        # Lower bounds for the search of openers, for each kind of closer
+        openers_bottom = {}
         use_delims = 0
 
         # Find first closer above stack_bottom
@@ -381,8 +376,11 @@ class InlineParser(object):
                 opener = closer.get('previous')
                 opener_found = False
                 closercc = closer.get('cc')
+                closer_kind = (closercc, bool(closer.get('can_open')),
+                               closer['origdelims'] % 3)
+                bottom = openers_bottom.get(closer_kind, stack_bottom)
                 while (opener is not None and opener != stack_bottom and
-                       opener != openers_bottom[closercc]):
+                       opener != bottom):
                     odd_match = (closer.get('can_open') or
                                  opener.get('can_close')) and \
                                  closer['origdelims'] % 3 != 0 and \
@@ -459,13 +457,11 @@ class InlineParser(object):
                         opener['node'].literal = '\u201C'
                     closer = closer['next']
 
-                if not opener_found and not odd_match:
-                    # Set lower bound for future searches for openers:
-                    # We don't do this with odd_match because a **
-                    # that doesn't match an earlier * might turn into
-                    # an opener, and the * might be matched by something
-                    # else.
-                    openers_bottom[closercc] = old_closer['previous']
+                if not opener_found:
+                    # Set lower bound for future searches for openers by
+                    # closers of this kind (whether the delimiters match
+                    # depends on it, see odd_match above):
+                    openers_bottom[closer_kind] = old_closer['previous']
                     if not old_closer['can_open']:
                         # We can remove a closer that can't be an opener,
                         # once we've seen there's no matching opener:
-- 
2.43.0


From a101d387be60df5837e0d910c588f5c4a4a9b4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:34 +0000
Subject: [PATCH 03/33] fix: resolve exactly the entities and character
 references of the spec

---
 commonmark/common.py  | 24 +++++++++++++++---------
 commonmark/inlines.py | 14 +-------------
 2 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/commonmark/common.py b/commonmark/common.py
index 05b52a1..35f9616 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -2,22 +2,17 @@ from __future__ import absolute_import, unicode_literals
 
 import re
 import sys
+from builtins import chr
 
 try:
     from urllib.parse import quote
 except ImportError:
     from urllib import quote
 
-if sys.version_info >= (3, 0):
-    if sys.version_info >= (3, 4):
-        import html
-        HTMLunescape = html.unescape
-    else:
-        from .entitytrans import _unescape
-        HTMLunescape = _unescape
+if sys.version_info >= (3, 4):
+    from html.entities import html5
 else:
-    from commonmark import entitytrans
-    HTMLunescape = entitytrans._unescape
+    from commonmark.entitytrans import _html5 as html5
 
 ENTITY = '&(?:#x[a-f0-9]{1,6}|#[0-9]{1,7}|[a-z][a-z0-9]{1,31});'
 
@@ -47,6 +42,17 @@ XMLSPECIAL = '[&<>"]'
 reXmlSpecial = re.compile(XMLSPECIAL)
 
 
+def HTMLunescape(s):
+    """Replace a complete entity or numeric character reference with the
+    corresponding characters. Unknown entities are left alone."""
+    if s[1] != '#':
+        return html5.get(s[1:], s)
+    num = int(s[3:-1], 16) if s[2] in 'xX' else int(s[2:-1])
+    if num == 0 or 0xD800 <= num <= 0xDFFF or num > 0x10FFFF:
+        return '\uFFFD'
+    return chr(num)
+
+
 def unescape_char(s):
     if s[0] == '\\':
         return s[1]
diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 92fa98b..45c96ba 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -1,23 +1,11 @@
 from __future__ import absolute_import, unicode_literals, division
 
 import re
-import sys
 from commonmark import common
-from commonmark.common import normalize_uri, unescape_string
+from commonmark.common import HTMLunescape, normalize_uri, unescape_string
 from commonmark.node import Node
 from commonmark.normalize_reference import normalize_reference
 
-if sys.version_info >= (3, 0):
-    if sys.version_info >= (3, 4):
-        import html
-        HTMLunescape = html.unescape
-    else:
-        from .entitytrans import _unescape
-        HTMLunescape = _unescape
-else:
-    from commonmark import entitytrans
-    HTMLunescape = entitytrans._unescape
-
 # Some regexps used in inline parser:
 
 ESCAPED_CHAR = '\\\\' + common.ESCAPABLE
-- 
2.43.0


From cffec8318037c58444f58c2875241a917be7cdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:35 +0000
Subject: [PATCH 04/33] fix: a final carriage return does not start another
 line

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index aeec21d..5f8f9d8 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -891,7 +891,7 @@ class Parser(object):
         self.current_line = ''
         lines = re.split(reLineEnding, my_input)
         length = len(lines)
-        if len(my_input) > 0 and my_input[-1] == '\n':
+        if len(my_input) > 0 and my_input[-1] in '\r\n':
             # ignore last blank line created by final newline
             length -= 1
         for i in range(length):
-- 
2.43.0


From ef6bc861159da678cc4bf501e4eb7b0e9fc19580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:37 +0000
Subject: [PATCH 05/33] fix: only ASCII digits make a list number

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 5f8f9d8..f27d740 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -41,7 +41,7 @@ reThematicBreak = re.compile(
 reMaybeSpecial = re.compile(r'^[#`~*+_=<>0-9-]')
 reNonSpace = re.compile(r'[^ \t\f\v\r\n]')
 reBulletListMarker = re.compile(r'^[*+-]')
-reOrderedListMarker = re.compile(r'^(\d{1,9})([.)])')
+reOrderedListMarker = re.compile(r'^([0-9]{1,9})([.)])')
 reATXHeadingMarker = re.compile(r'^#{1,6}(?:[ \t]+|$)')
 reCodeFence = re.compile(r'^`{3,}(?!.*`)|^~{3,}')
 reClosingCodeFence = re.compile(r'^(?:`{3,}|~{3,})(?= *$)')
-- 
2.43.0


From 33aa5f680f349632227e32525f536a979909f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:38 +0000
Subject: [PATCH 06/33] fix: a list number equal to 1 may interrupt a paragraph
 however written

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index f27d740..41eabbf 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -102,7 +102,7 @@ def parse_list_marker(parser, container):
     if m:
         data['type'] = 'bullet'
         data['bullet_char'] = m.group()[0]
-    elif m2 and (container.t != 'paragraph' or m2.group(1) == '1'):
+    elif m2 and (container.t != 'paragraph' or int(m2.group(1)) == 1):
         m = m2
         data['type'] = 'ordered'
         data['start'] = int(m.group(1))
-- 
2.43.0


From e0f54f9c2ecdd1189501ec99625464fe3c6a9f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:39 +0000
Subject: [PATCH 07/33] fix: h2 to h6 tags start an HTML block

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 41eabbf..dc8e514 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -18,7 +18,7 @@ reHtmlBlockOpen = [
     re.compile(
         r'^<[/]?(?:address|article|aside|base|basefont|blockquote|body|'
         r'caption|center|col|colgroup|dd|details|dialog|dir|div|dl|dt|'
-        r'fieldset|figcaption|figure|footer|form|frame|frameset|h1|head|'
+        r'fieldset|figcaption|figure|footer|form|frame|frameset|h[1-6]|head|'
         r'header|hr|html|iframe|legend|li|link|main|menu|menuitem|'
         r'nav|noframes|ol|optgroup|option|p|param|section|source|title|'
         r'summary|table|tbody|td|tfoot|th|thead|title|tr|track|ul)'
-- 
2.43.0


From f55c91323ca5e7a0e02ca6355c16ae4e67abb15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:41 +0000
Subject: [PATCH 08/33] fix: parentheses in a bare link destination must be
 balanced

---
 commonmark/inlines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 45c96ba..64168f8 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -507,6 +507,8 @@ class InlineParser(object):
                     self.pos += 1
             if self.pos == savepos and c != ')':
                 return None
+            if openparens != 0:
+                return None
             res = self.subject[savepos:self.pos]
             return normalize_uri(unescape_string(res))
         else:
-- 
2.43.0


From baabe12bd75b3a599d5c6a1d0a1c79fc8020beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:42 +0000
Subject: [PATCH 09/33] fix: a backslash escape is never the end of a link
 title

---
 commonmark/inlines.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 64168f8..3b243cb 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -8,8 +8,6 @@ from commonmark.normalize_reference import normalize_reference
 
 # Some regexps used in inline parser:
 
-ESCAPED_CHAR = '\\\\' + common.ESCAPABLE
-
 rePunctuation = re.compile(
     r'[!"#$%&\'()*+,\-./:;<=>?@\[\]\\^_`{|}~\xA1\xA7\xAB\xB6\xB7\xBB'
     r'\xBF\u037E\u0387\u055A-\u055F\u0589\u058A\u05BE\u05C0\u05C3'
@@ -39,11 +37,11 @@ rePunctuation = re.compile(
 )
 
 reLinkTitle = re.compile(
-    '^(?:"(' + ESCAPED_CHAR + '|[^"\\x00])*"' +
+    '^(?:"(?:\\\\[^\\x00]|[^\\\\"\\x00])*"' +
     '|' +
-    '\'(' + ESCAPED_CHAR + '|[^\'\\x00])*\'' +
+    '\'(?:\\\\[^\\x00]|[^\\\\\'\\x00])*\'' +
     '|' +
-    '\\((' + ESCAPED_CHAR + '|[^()\\x00])*\\))')
+    '\\((?:\\\\[^\\x00]|[^\\\\()\\x00])*\\))')
 reLinkDestinationBraces = re.compile(r'^(?:<(?:[^<>\n\\\x00]|\\.)*>)')
 
 reEscapable = re.compile('^' + common.ESCAPABLE)
-- 
2.43.0


From d9e03bb9ce940b2f4d638aff17ddf3b6b2834dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:43 +0000
Subject: [PATCH 10/33] fix: a processing instruction may span lines

---
 commonmark/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/common.py b/commonmark/common.py
index 35f9616..7b9975e 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -28,7 +28,7 @@ ATTRIBUTE = "(?:" + "\\s+" + ATTRIBUTENAME + ATTRIBUTEVALUESPEC + "?)"
 OPENTAG = "<" + TAGNAME + ATTRIBUTE + "*" + "\\s*/?>"
 CLOSETAG = "</" + TAGNAME + "\\s*[>]"
 HTMLCOMMENT = '<!---->|<!--(?:-?[^>-])(?:-?[^-])*-->'
-PROCESSINGINSTRUCTION = "[<][?].*?[?][>]"
+PROCESSINGINSTRUCTION = "[<][?][\\s\\S]*?[?][>]"
 DECLARATION = "<![A-Z]+" + "\\s+[^>]*>"
 CDATA = '<!\\[CDATA\\[[\\s\\S]*?\\]\\]>'
 HTMLTAG = "(?:" + OPENTAG + "|" + CLOSETAG + "|" + HTMLCOMMENT + "|" + \
-- 
2.43.0


From 07f04b5c684dc9bfeccc7e732290c6e631a39556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:45 +0000
Subject: [PATCH 11/33] fix: raw HTML in an image description is escaped

---
 commonmark/render/html.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index b4ea345..7cc9696 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -185,9 +185,14 @@ class HtmlRenderer(Renderer):
 
     def html_inline(self, node, entering):
         if self.options.get('safe'):
-            self.lit('<!-- raw HTML omitted -->')
+            literal = '<!-- raw HTML omitted -->'
         else:
-            self.lit(node.literal)
+            literal = node.literal
+        # the description of an image is the value of an attribute
+        if self.disable_tags > 0:
+            self.out(literal)
+        else:
+            self.lit(literal)
 
     def html_block(self, node, entering):
         self.cr()
-- 
2.43.0


From 39ad596b57fc01521847c10c3d95416f23118750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:46 +0000
Subject: [PATCH 12/33] fix: strip only whitespace characters, not Unicode
 whitespace

---
 commonmark/blocks.py  | 3 ++-
 commonmark/inlines.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index dc8e514..cc2243d 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -352,7 +352,8 @@ class CodeBlock(Block):
             newline_pos = content.index('\n')
             first_line = content[0:newline_pos]
             rest = content[newline_pos + 1:]
-            block.info = unescape_string(first_line.strip())
+            block.info = unescape_string(
+                first_line.strip(' \t\n\x0b\x0c\r'))
             block.literal = rest
         else:
             # indented
diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 3b243cb..3f2985c 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -853,7 +853,7 @@ class InlineParser(object):
         Parse string content in block into inline children,
         using refmap to resolve references.
         """
-        self.subject = block.string_content.strip()
+        self.subject = block.string_content.strip(' \t\n\x0b\x0c\r')
         self.pos = 0
         self.delimiters = None
         self.brackets = None
-- 
2.43.0


From 00e33debb96169922f80fb63656307e362928908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:47 +0000
Subject: [PATCH 13/33] fix: a backslash before a line ending may stand in a
 link label

---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 3f2985c..fc292ed 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -64,7 +64,7 @@ reUnicodeWhitespaceChar = re.compile(r'^\s')
 reFinalSpace = re.compile(r' *$')
 reInitialSpace = re.compile(r'^ *')
 reSpaceAtEndOfLine = re.compile(r'^ *(?:\n|$)')
-reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\.){0,1000}\]')
+reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\[\s\S]){0,1000}\]')
 # Matches a string of non-special characters.
 reMain = re.compile(r'^[^\n`\[\]\\!<&*_\'"]+', re.MULTILINE)
 
-- 
2.43.0


From e24367ab44f9e8c6ea5d71292642c0a82c3130c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:49 +0000
Subject: [PATCH 14/33] fix: drop a title that is not part of the link
 reference definition

---
 commonmark/inlines.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index fc292ed..193a9cd 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -771,20 +771,19 @@ class InlineParser(object):
         if self.pos != beforetitle:
             title = self.parseLinkTitle()
         if title is None:
-            title = ''
             # rewind before spaces
             self.pos = beforetitle
 
         # make sure we're at line end:
         at_line_end = True
         if self.match(reSpaceAtEndOfLine) is None:
-            if title == '':
+            if title is None:
                 at_line_end = False
             else:
                 # the potential title we found is not at the line end,
                 # but it could still be a legal link reference if we
                 # discard the title
-                title == ''
+                title = None
                 # rewind before spaces
                 self.pos = beforetitle
                 # and instead check if the link URL is at the line end
@@ -803,7 +802,7 @@ class InlineParser(object):
         if not refmap.get(normlabel):
             refmap[normlabel] = {
                 'destination': dest,
-                'title': title
+                'title': title or ''
             }
         return (self.pos - startpos)
 
-- 
2.43.0


From 157b9f9de986f8dfdaa204621bf3198f47b34725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:50 +0000
Subject: [PATCH 15/33] fix: underline RST headings over their whole text

---
 commonmark/render/rst.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 45adca3..20ece45 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -150,12 +150,12 @@ class ReStructuredTextRenderer(Renderer):
             # Default to the last level if we're in too deep
             heading_char = heading_chars[-1]
 
-        heading_length = len(node.first_child.literal)
-        banner = heading_char * heading_length
-
         if entering:
             self.cr()
+            self.heading_start = len(self.buf)
         else:
+            title = self.buf[self.heading_start:].strip(self.indent_char)
+            banner = heading_char * len(title)
             self.cr()
             self.out(banner)
             self.cr()
-- 
2.43.0


From 9b76ff3b7a4d6e12bb955d8fd3aa093d9fc42f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:52 +0000
Subject: [PATCH 16/33] fix: the end column of a block is that of its own last
 line

---
 commonmark/blocks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index cc2243d..ae14764 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -326,6 +326,7 @@ class CodeBlock(Block):
                 re.search(reClosingCodeFence, ln[parser.next_nonspace:])
             if match and len(match.group()) >= container.fence_length:
                 # closing fence - we're at end of line, so we can return
+                parser.last_line_length = len(ln)
                 parser.finalize(container, parser.line_number)
                 return 2
             else:
@@ -840,6 +841,7 @@ class Parser(object):
                    re.search(
                        reHtmlBlockClose[container.html_block_type],
                        self.current_line[self.offset:]):
+                    self.last_line_length = len(ln)
                     self.finalize(container, self.line_number)
             elif self.offset < len(ln) and not self.blank:
                 # create a paragraph container for one line
-- 
2.43.0


From 1754ee5f85b73a6509361e237215f79ea4e932dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:54 +0000
Subject: [PATCH 17/33] fix: do not share or modify option dictionaries

---
 commonmark/blocks.py      | 3 ++-
 commonmark/inlines.py     | 4 ++--
 commonmark/render/html.py | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index ae14764..55f3982 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -588,7 +588,8 @@ class BlockStarts(object):
 
 
 class Parser(object):
-    def __init__(self, options={}):
+    def __init__(self, options=None):
+        options = {} if options is None else options
         self.doc = Node('document', [[1, 1], [0, 0]])
         self.block_starts = BlockStarts()
         self.tip = self.doc
diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 193a9cd..4037428 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -104,12 +104,12 @@ class InlineParser(object):
     parsed) and a position in that subject.
     """
 
-    def __init__(self, options={}):
+    def __init__(self, options=None):
         self.subject = ''
         self.brackets = None
         self.pos = 0
         self.refmap = {}
-        self.options = options
+        self.options = {} if options is None else options
 
     def match(self, regexString):
         """
diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index 7cc9696..d24c7fb 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -19,7 +19,8 @@ def potentially_unsafe(url):
 
 
 class HtmlRenderer(Renderer):
-    def __init__(self, options={}):
+    def __init__(self, options=None):
+        options = dict(options or {})
         #  by default, soft breaks are rendered as newlines in HTML
         options['softbreak'] = options.get('softbreak') or '\n'
         # set to "<br />" to make them hard breaks
-- 
2.43.0


From 1d764d7c2574966f5fa7c3d4794daa758ceaa58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:55 +0000
Subject: [PATCH 18/33] fix: tabs are whitespace in links and link reference
 definitions

---
 commonmark/inlines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 4037428..dc556e0 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -57,13 +57,13 @@ reEmailAutolink = re.compile(
 reAutolink = re.compile(
     r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>',
     re.IGNORECASE)
-reSpnl = re.compile(r'^ *(?:\n *)?')
+reSpnl = re.compile(r'^[ \t]*(?:\n[ \t]*)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
 reUnicodeWhitespaceChar = re.compile(r'^\s')
 reFinalSpace = re.compile(r' *$')
 reInitialSpace = re.compile(r'^ *')
-reSpaceAtEndOfLine = re.compile(r'^ *(?:\n|$)')
+reSpaceAtEndOfLine = re.compile(r'^[ \t]*(?:\n|$)')
 reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\[\s\S]){0,1000}\]')
 # Matches a string of non-special characters.
 reMain = re.compile(r'^[^\n`\[\]\\!<&*_\'"]+', re.MULTILINE)
-- 
2.43.0


From e841a28dce3fb939815975cc0524660b110b5f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:57 +0000
Subject: [PATCH 19/33] fix: trailing blank lines of code and HTML blocks may
 hold tabs

---
 commonmark/blocks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 55f3982..123694b 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -358,7 +358,8 @@ class CodeBlock(Block):
             block.literal = rest
         else:
             # indented
-            block.literal = re.sub(r'(\n *)+$', '\n', block.string_content)
+            block.literal = re.sub(
+                r'(\n[ \t]*)+$', '\n', block.string_content)
 
         block.string_content = None
 
@@ -380,7 +381,7 @@ class HtmlBlock(Block):
 
     @staticmethod
     def finalize(parser=None, block=None):
-        block.literal = re.sub(r'(\n *)+$', '', block.string_content)
+        block.literal = re.sub(r'(\n[ \t]*)+$', '', block.string_content)
         # allow GC
         block.string_content = None
 
-- 
2.43.0


From 187376b18c64d1db9908be44cd44d8caadd56ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:59 +0000
Subject: [PATCH 20/33] fix: no empty paragraph is left where only definitions
 were

---
 commonmark/blocks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 123694b..31b964d 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -409,7 +409,9 @@ class Paragraph(Block):
                 break
             block.string_content = block.string_content[pos:]
             has_reference_defs = True
-        if has_reference_defs and is_blank(block.string_content):
+        # (a setext heading start may have taken all definitions before)
+        if not block.string_content or (
+                has_reference_defs and is_blank(block.string_content)):
             block.unlink()
 
     @staticmethod
-- 
2.43.0


From 2911ee55e86ca322b4b4d01daeea00a0821a5c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:00 +0000
Subject: [PATCH 21/33] fix: RST code lines end only at line feeds

---
 commonmark/render/rst.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 20ece45..01798c2 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -42,7 +42,10 @@ class ReStructuredTextRenderer(Renderer):
         indent = self.indent_char * indent_length
         new_lines = []
 
-        for line in literal.splitlines():
+        lines = literal.split('\n')
+        if lines[-1] == '':
+            lines.pop()
+        for line in lines:
             new_lines.append(indent + line)
 
         return '\n'.join(new_lines)
-- 
2.43.0


From 428b4260f5fb696ae4f7fc87e1e2fb33a96d48ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:10 +0000
Subject: [PATCH 22/33] fix: nest the nodes of the JSON dump under their
 parents

---
 commonmark/dump.py | 50 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/commonmark/dump.py b/commonmark/dump.py
index d83f259..738a6c6 100644
--- a/commonmark/dump.py
+++ b/commonmark/dump.py
@@ -12,7 +12,13 @@ def prepare(obj, topnode=False):
     JSON.
     """
     a = []
+    # children of the nodes that are open
+    children = [a]
     for subnode, entered in obj.walker():
+        if not entered:
+            children.pop()
+            continue
+
         rep = {
             'type': subnode.t,
         }
@@ -34,23 +40,45 @@ def prepare(obj, topnode=False):
         if subnode.list_data:
             rep['list_data'] = subnode.list_data
 
+        children[-1].append(rep)
         if is_container(subnode):
             rep['children'] = []
-
-        if entered and len(a) > 0:
-            if a[-1]['children']:
-                a[-1]['children'].append(rep)
-            else:
-                a[-1]['children'] = [rep]
-        else:
-            a.append(rep)
+            children.append(rep['children'])
     return a
 
 
 def dumpJSON(obj):
-    """Output AST in JSON form, this is destructive of block."""
-    prepared = prepare(obj)
-    return json.dumps(prepared, indent=4, sort_keys=True)
+    """Output AST in JSON form."""
+    # The same as json.dumps(prepare(obj), indent=4, sort_keys=True), but
+    # without recursion: documents may be nested very deeply.
+    out = ['[']
+    todo = [(iter(prepare(obj)), '\n]')]
+    separator = ''
+    while todo:
+        reps, end = todo[-1]
+        rep = next(reps, None)
+        if rep is None:
+            out.append(end)
+            todo.pop()
+            separator = ','
+            continue
+        newline = '\n' + ' ' * (4 * (2 * len(todo) - 1))
+        children = rep.get('children')
+        if children is not None:
+            rep = dict(rep, children=[])
+        text = json.dumps(rep, indent=4, sort_keys=True)
+        out.append(separator + newline)
+        separator = ','
+        if children:
+            # "children" is the first key
+            begin, rest = text.split('[]', 1)
+            out.append(begin.replace('\n', newline) + '[')
+            todo.append((iter(children),
+                         newline + '    ]' + rest.replace('\n', newline)))
+            separator = ''
+        else:
+            out.append(text.replace('\n', newline))
+    return ''.join(out)
 
 
 def dumpAST(obj, ind=0, topnode=False):
-- 
2.43.0


From afc6eb0073a54f459f82dd0d024962b673908a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:18 +0000
Subject: [PATCH 23/33] fix: only ASCII whitespace separates the parts of an
 HTML tag

Regular expression whitespace includes Unicode spaces, so <div\u00a0> or
<a\u00a0b> were taken for tags.  CommonMark: whitespace is space, tab, line
feed, line tabulation, form feed and carriage return.
---
 commonmark/blocks.py |  8 +++++---
 commonmark/common.py | 14 +++++++++-----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 31b964d..0970e09 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -10,7 +10,8 @@ from commonmark.node import Node
 CODE_INDENT = 4
 reHtmlBlockOpen = [
     re.compile(r'.'),  # dummy for 0
-    re.compile(r'^<(?:script|pre|style)(?:\s|>|$)', re.IGNORECASE),
+    re.compile(r'^<(?:script|pre|style)(?:' +
+               common.WHITESPACE + r'|>|$)', re.IGNORECASE),
     re.compile(r'^<!--'),
     re.compile(r'^<[?]'),
     re.compile(r'^<![A-Z]'),
@@ -22,10 +23,11 @@ reHtmlBlockOpen = [
         r'header|hr|html|iframe|legend|li|link|main|menu|menuitem|'
         r'nav|noframes|ol|optgroup|option|p|param|section|source|title|'
         r'summary|table|tbody|td|tfoot|th|thead|title|tr|track|ul)'
-        r'(?:\s|[/]?[>]|$)',
+        r'(?:' + common.WHITESPACE + r'|[/]?[>]|$)',
         re.IGNORECASE),
     re.compile(
-        '^(?:' + common.OPENTAG + '|' + common.CLOSETAG + ')\\s*$',
+        '^(?:' + common.OPENTAG + '|' + common.CLOSETAG + ')' +
+        common.WHITESPACE + '*$',
         re.IGNORECASE),
 ]
 reHtmlBlockClose = [
diff --git a/commonmark/common.py b/commonmark/common.py
index 7b9975e..544db9b 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -23,13 +23,17 @@ SINGLEQUOTEDVALUE = "'[^']*'"
 DOUBLEQUOTEDVALUE = '"[^"]*"'
 ATTRIBUTEVALUE = "(?:" + UNQUOTEDVALUE + "|" + SINGLEQUOTEDVALUE + \
     "|" + DOUBLEQUOTEDVALUE + ")"
-ATTRIBUTEVALUESPEC = "(?:" + "\\s*=" + "\\s*" + ATTRIBUTEVALUE + ")"
-ATTRIBUTE = "(?:" + "\\s+" + ATTRIBUTENAME + ATTRIBUTEVALUESPEC + "?)"
-OPENTAG = "<" + TAGNAME + ATTRIBUTE + "*" + "\\s*/?>"
-CLOSETAG = "</" + TAGNAME + "\\s*[>]"
+# "\\s" would also match Unicode whitespace, such as a no-break space
+WHITESPACE = "[ \\t\\n\\x0b\\x0c\\r]"
+ATTRIBUTEVALUESPEC = "(?:" + WHITESPACE + "*=" + WHITESPACE + "*" + \
+    ATTRIBUTEVALUE + ")"
+ATTRIBUTE = "(?:" + WHITESPACE + "+" + ATTRIBUTENAME + \
+    ATTRIBUTEVALUESPEC + "?)"
+OPENTAG = "<" + TAGNAME + ATTRIBUTE + "*" + WHITESPACE + "*/?>"
+CLOSETAG = "</" + TAGNAME + WHITESPACE + "*[>]"
 HTMLCOMMENT = '<!---->|<!--(?:-?[^>-])(?:-?[^-])*-->'
 PROCESSINGINSTRUCTION = "[<][?][\\s\\S]*?[?][>]"
-DECLARATION = "<![A-Z]+" + "\\s+[^>]*>"
+DECLARATION = "<![A-Z]+" + WHITESPACE + "+[^>]*>"
 CDATA = '<!\\[CDATA\\[[\\s\\S]*?\\]\\]>'
 HTMLTAG = "(?:" + OPENTAG + "|" + CLOSETAG + "|" + HTMLCOMMENT + "|" + \
     PROCESSINGINSTRUCTION + "|" + DECLARATION + "|" + CDATA + ")"
-- 
2.43.0


From 0c1a2f60934992bb8236efc7f579322ff48af851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:15 +0000
Subject: [PATCH 24/33] fix: an HTML tag is matched case-sensitively where case
 matters

<![cdata[ does not start a CDATA section, and letters outside ASCII that fold
to ASCII ones are not letters of a tag name.
---
 commonmark/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commonmark/common.py b/commonmark/common.py
index 544db9b..1e59d78 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -33,11 +33,11 @@ OPENTAG = "<" + TAGNAME + ATTRIBUTE + "*" + WHITESPACE + "*/?>"
 CLOSETAG = "</" + TAGNAME + WHITESPACE + "*[>]"
 HTMLCOMMENT = '<!---->|<!--(?:-?[^>-])(?:-?[^-])*-->'
 PROCESSINGINSTRUCTION = "[<][?][\\s\\S]*?[?][>]"
-DECLARATION = "<![A-Z]+" + WHITESPACE + "+[^>]*>"
+DECLARATION = "<![A-Za-z]+" + WHITESPACE + "+[^>]*>"
 CDATA = '<!\\[CDATA\\[[\\s\\S]*?\\]\\]>'
 HTMLTAG = "(?:" + OPENTAG + "|" + CLOSETAG + "|" + HTMLCOMMENT + "|" + \
     PROCESSINGINSTRUCTION + "|" + DECLARATION + "|" + CDATA + ")"
-reHtmlTag = re.compile('^' + HTMLTAG, re.IGNORECASE)
+reHtmlTag = re.compile('^' + HTMLTAG)
 reBackslashOrAmp = re.compile(r'[\\&]')
 ESCAPABLE = '[!"#$%&\'()*+,./:;<=>?@[\\\\\\]^_`{|}~-]'
 reEntityOrEscapedChar = re.compile(
-- 
2.43.0


From fa206a050b46698189dedc63b163b11c20e4edc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:45 +0000
Subject: [PATCH 25/33] fix: only CommonMark whitespace is trimmed and
 collapsed in link labels

str.strip() also removes Unicode spaces, so that [f\u00a0] was taken for [f];
line tabulation and form feed are whitespace and are collapsed.
---
 commonmark/normalize_reference.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/commonmark/normalize_reference.py b/commonmark/normalize_reference.py
index d68a3b1..2d86943 100644
--- a/commonmark/normalize_reference.py
+++ b/commonmark/normalize_reference.py
@@ -106,28 +106,30 @@ def _check_native(tbl):
     return True
 
 
+# Whitespace as the CommonMark specification defines it
+WHITESPACE = ' \t\n\x0b\x0c\r'
 # Hoist version check out of function for performance
-SPACE_RE = re.compile(r'[ \t\r\n]+')
+SPACE_RE = re.compile(r'[ \t\r\n\x0b\x0c]+')
 if _check_native(XLAT):
     def normalize_reference(string):
         """
         Normalize reference label: collapse internal whitespace
         to single space, remove leading/trailing whitespace, case fold.
         """
-        return SPACE_RE.sub(' ', string[1:-1].strip()).casefold()
+        return SPACE_RE.sub(' ', string[1:-1].strip(WHITESPACE)).casefold()
 elif sys.version_info >= (3,) or sys.maxunicode > 0xffff:
     def normalize_reference(string):
         """
         Normalize reference label: collapse internal whitespace
         to single space, remove leading/trailing whitespace, case fold.
         """
-        return SPACE_RE.sub(' ', string[1:-1].strip()).translate(XLAT)
+        return SPACE_RE.sub(' ', string[1:-1].strip(WHITESPACE)).translate(XLAT)
 else:
     def _get_smp_regex():
         xls = sorted(x - 0x10000 for x in XLAT if x >= 0x10000)
         xls.append(-1)
         fmt, (dsh, opn, pip, cse) = str('\\u%04x'), str('-[|]')
-        rga, srk, erk = [str(r'[ \t\r\n]+')], 0, -2
+        rga, srk, erk = [str(r'[ \t\r\n\x0b\x0c]+')], 0, -2
         for k in xls:
             new_hir = (erk ^ k) >> 10 != 0
             if new_hir or erk + 1 != k:
@@ -162,4 +164,5 @@ else:
         Normalize reference label: collapse internal whitespace
         to single space, remove leading/trailing whitespace, case fold.
         """
-        return SMP_RE.sub(_subst_handler, string[1:-1].strip()).translate(XLAT)
+        return SMP_RE.sub(
+            _subst_handler, string[1:-1].strip(WHITESPACE)).translate(XLAT)
-- 
2.43.0


From 3690d17e18a9d69b0130d1c9fa0a16474ca2bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:54 +0000
Subject: [PATCH 26/33] fix: RST: separate the paragraphs of a list item

The text of a second paragraph was joined to the last word of the first.
---
 commonmark/render/rst.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 01798c2..0b08d53 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -73,7 +73,11 @@ class ReStructuredTextRenderer(Renderer):
 
     def paragraph(self, node, entering):
         if node.parent.t == 'item':
-            pass
+            if entering and node.prv:
+                # Separate it from what comes before it in the item
+                if self.last_out != '\n':
+                    self.cr()
+                self.cr()
         else:
             self.cr()
 
-- 
2.43.0


From 42dfa6ca40e01e4fcecace20f74fcb292851cfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:02 +0000
Subject: [PATCH 27/33] fix: RST: indent all lines of a nested code block

Only the first line got the indentation of the enclosing items and quotes,
so that the other lines moved to the left or out of the directive.
---
 commonmark/render/rst.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 0b08d53..71312f2 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -48,7 +48,8 @@ class ReStructuredTextRenderer(Renderer):
         for line in lines:
             new_lines.append(indent + line)
 
-        return '\n'.join(new_lines)
+        # lit() indents the first line only
+        return ('\n' + self.indent_char * self.indent_length).join(new_lines)
 
     # Nodes
 
-- 
2.43.0


From 04249e42ad548a15c39001710870263126a1c8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:19:48 +0000
Subject: [PATCH 28/33] fix: a renderer starts afresh after a call that failed

---
 commonmark/render/html.py | 5 +++++
 commonmark/render/rst.py  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index d24c7fb..5df58b0 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -30,6 +30,11 @@ class HtmlRenderer(Renderer):
         self.last_out = '\n'
         self.options = options
 
+    def render(self, ast):
+        # A call that failed may have left this inside of an image
+        self.disable_tags = 0
+        return super(HtmlRenderer, self).render(ast)
+
     def escape(self, text):
         return escape_xml(text)
 
diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 71312f2..1245d06 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -25,6 +25,11 @@ class ReStructuredTextRenderer(Renderer):
         self.indent_char = indent_char
         self.indent_length = 0
 
+    def render(self, ast):
+        # A call that failed may have left some indentation
+        self.indent_length = 0
+        return super(ReStructuredTextRenderer, self).render(ast)
+
     def lit(self, s):
         if s == '\n':
             indent = ''  # Avoid whitespace if we're just adding a newline
-- 
2.43.0


From 30e5a569e2eab905cde020cd6187a7998182d161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:38:52 +0000
Subject: [PATCH 29/33] fix: only the Zs category and tab, newline, form feed
 and the like are Unicode whitespace around delimiters

---
 commonmark/inlines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index dc556e0..a7f85f5 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -60,7 +60,9 @@ reAutolink = re.compile(
 reSpnl = re.compile(r'^[ \t]*(?:\n[ \t]*)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
-reUnicodeWhitespaceChar = re.compile(r'^\s')
+# "\s" would also match other separators, such as U+001C or U+0085
+reUnicodeWhitespaceChar = re.compile(
+    r'^[ \t\n\x0b\x0c\x0d\xA0\u1680\u2000-\u200A\u202F\u205F\u3000]')
 reFinalSpace = re.compile(r' *$')
 reInitialSpace = re.compile(r'^ *')
 reSpaceAtEndOfLine = re.compile(r'^[ \t]*(?:\n|$)')
-- 
2.43.0


From 8ac8aec6c7e0e530905d091a6b9c10a6706a353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:22 +0000
Subject: [PATCH 30/33] fix: without regard to case, ASCII letters match ASCII
 letters only

---
 commonmark/blocks.py      | 8 ++++----
 commonmark/common.py      | 5 ++++-
 commonmark/inlines.py     | 4 ++--
 commonmark/render/html.py | 6 +++---
 4 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 0970e09..50c6da5 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -11,7 +11,7 @@ CODE_INDENT = 4
 reHtmlBlockOpen = [
     re.compile(r'.'),  # dummy for 0
     re.compile(r'^<(?:script|pre|style)(?:' +
-               common.WHITESPACE + r'|>|$)', re.IGNORECASE),
+               common.WHITESPACE + r'|>|$)', common.IGNORECASE),
     re.compile(r'^<!--'),
     re.compile(r'^<[?]'),
     re.compile(r'^<![A-Z]'),
@@ -24,15 +24,15 @@ reHtmlBlockOpen = [
         r'nav|noframes|ol|optgroup|option|p|param|section|source|title|'
         r'summary|table|tbody|td|tfoot|th|thead|title|tr|track|ul)'
         r'(?:' + common.WHITESPACE + r'|[/]?[>]|$)',
-        re.IGNORECASE),
+        common.IGNORECASE),
     re.compile(
         '^(?:' + common.OPENTAG + '|' + common.CLOSETAG + ')' +
         common.WHITESPACE + '*$',
-        re.IGNORECASE),
+        common.IGNORECASE),
 ]
 reHtmlBlockClose = [
     re.compile(r'.'),  # dummy for 0
-    re.compile(r'<\/(?:script|pre|style)>', re.IGNORECASE),
+    re.compile(r'<\/(?:script|pre|style)>', common.IGNORECASE),
     re.compile(r'-->'),
     re.compile(r'\?>'),
     re.compile(r'>'),
diff --git a/commonmark/common.py b/commonmark/common.py
index 1e59d78..24bcab8 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -14,6 +14,9 @@ if sys.version_info >= (3, 4):
 else:
     from commonmark.entitytrans import _html5 as html5
 
+# ASCII letters only: "[a-z]" would also match U+0130, U+0131, U+017F and U+212A
+IGNORECASE = re.IGNORECASE | getattr(re, 'ASCII', 0)
+
 ENTITY = '&(?:#x[a-f0-9]{1,6}|#[0-9]{1,7}|[a-z][a-z0-9]{1,31});'
 
 TAGNAME = '[A-Za-z][A-Za-z0-9-]*'
@@ -41,7 +44,7 @@ reHtmlTag = re.compile('^' + HTMLTAG)
 reBackslashOrAmp = re.compile(r'[\\&]')
 ESCAPABLE = '[!"#$%&\'()*+,./:;<=>?@[\\\\\\]^_`{|}~-]'
 reEntityOrEscapedChar = re.compile(
-    '\\\\' + ESCAPABLE + '|' + ENTITY, re.IGNORECASE)
+    '\\\\' + ESCAPABLE + '|' + ENTITY, IGNORECASE)
 XMLSPECIAL = '[&<>"]'
 reXmlSpecial = re.compile(XMLSPECIAL)
 
diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index a7f85f5..a648459 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -45,7 +45,7 @@ reLinkTitle = re.compile(
 reLinkDestinationBraces = re.compile(r'^(?:<(?:[^<>\n\\\x00]|\\.)*>)')
 
 reEscapable = re.compile('^' + common.ESCAPABLE)
-reEntityHere = re.compile('^' + common.ENTITY, re.IGNORECASE)
+reEntityHere = re.compile('^' + common.ENTITY, common.IGNORECASE)
 reTicks = re.compile(r'`+')
 reTicksHere = re.compile(r'^`+')
 reEllipses = re.compile(r'\.\.\.')
@@ -56,7 +56,7 @@ reEmailAutolink = re.compile(
     r"(?:\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*)>")
 reAutolink = re.compile(
     r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>',
-    re.IGNORECASE)
+    common.IGNORECASE)
 reSpnl = re.compile(r'^[ \t]*(?:\n[ \t]*)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index 5df58b0..793ad56 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -3,14 +3,14 @@ from __future__ import unicode_literals
 
 import re
 from builtins import str
-from commonmark.common import escape_xml
+from commonmark.common import IGNORECASE, escape_xml
 from commonmark.render.renderer import Renderer
 
 
 reUnsafeProtocol = re.compile(
-    r'^javascript:|vbscript:|file:|data:', re.IGNORECASE)
+    r'^javascript:|vbscript:|file:|data:', IGNORECASE)
 reSafeDataProtocol = re.compile(
-    r'^data:image\/(?:png|gif|jpeg|webp)', re.IGNORECASE)
+    r'^data:image\/(?:png|gif|jpeg|webp)', IGNORECASE)
 
 
 def potentially_unsafe(url):
-- 
2.43.0


From 02901d0cac947bf9b2de70e15ba67877a0c7c403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:48:31 +0000
Subject: [PATCH 31/33] fix: punctuation around delimiters is that of Unicode,
 outside of the BMP too

---
 commonmark/inlines.py | 39 ++++++++++-----------------------------
 1 file changed, 10 insertions(+), 29 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index a648459..b42cb1c 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -1,6 +1,7 @@
 from __future__ import absolute_import, unicode_literals, division
 
 import re
+import unicodedata
 from commonmark import common
 from commonmark.common import HTMLunescape, normalize_uri, unescape_string
 from commonmark.node import Node
@@ -8,33 +9,7 @@ from commonmark.normalize_reference import normalize_reference
 
 # Some regexps used in inline parser:
 
-rePunctuation = re.compile(
-    r'[!"#$%&\'()*+,\-./:;<=>?@\[\]\\^_`{|}~\xA1\xA7\xAB\xB6\xB7\xBB'
-    r'\xBF\u037E\u0387\u055A-\u055F\u0589\u058A\u05BE\u05C0\u05C3'
-    r'\u05C6\u05F3\u05F4\u0609\u060A\u060C\u060D\u061B\u061E\u061F'
-    r'\u066A-\u066D\u06D4\u0700-\u070D\u07F7-\u07F9\u0830-\u083E'
-    r'\u085E\u0964\u0965\u0970\u0AF0\u0DF4\u0E4F\u0E5A\u0E5B\u0F04-\u0F12'
-    r'\u0F14\u0F3A-\u0F3D\u0F85\u0FD0-\u0FD4\u0FD9\u0FDA\u104A-\u104F\u10FB'
-    r'\u1360-\u1368\u1400\u166D\u166E\u169B\u169C\u16EB-\u16ED\u1735\u1736'
-    r'\u17D4-\u17D6\u17D8-\u17DA\u1800-\u180A\u1944\u1945\u1A1E\u1A1F\u1AA0-'
-    r'\u1AA6\u1AA8-\u1AAD\u1B5A-\u1B60\u1BFC-\u1BFF\u1C3B-\u1C3F\u1C7E\u1C7F'
-    r'\u1CC0-\u1CC7\u1CD3\u2010-\u2027\u2030-\u2043\u2045-\u2051\u2053-\u205E'
-    r'\u207D\u207E\u208D\u208E\u2308-\u230B\u2329\u232A\u2768-\u2775\u27C5'
-    r'\u27C6\u27E6-\u27EF\u2983-\u2998\u29D8-\u29DB\u29FC\u29FD\u2CF9-\u2CFC'
-    r'\u2CFE\u2CFF\u2D70\u2E00-\u2E2E\u2E30-\u2E42\u3001-\u3003\u3008-\u3011'
-    r'\u3014-\u301F\u3030\u303D\u30A0\u30FB\uA4FE\uA4FF\uA60D-\uA60F\uA673'
-    r'\uA67E\uA6F2-\uA6F7\uA874-\uA877\uA8CE\uA8CF\uA8F8-\uA8FA\uA8FC\uA92E'
-    r'\uA92F\uA95F\uA9C1-\uA9CD\uA9DE\uA9DF\uAA5C-\uAA5F\uAADE\uAADF\uAAF0'
-    r'\uAAF1\uABEB\uFD3E\uFD3F\uFE10-\uFE19\uFE30-\uFE52\uFE54-\uFE61\uFE63'
-    r'\uFE68\uFE6A\uFE6B\uFF01-\uFF03\uFF05-\uFF0A\uFF0C-\uFF0F\uFF1A\uFF1B'
-    r'\uFF1F\uFF20\uFF3B-\uFF3D\uFF3F\uFF5B\uFF5D\uFF5F-\uFF65]|\uD800[\uDD00-'
-    r'\uDD02\uDF9F\uDFD0]|\uD801\uDD6F|\uD802[\uDC57\uDD1F\uDD3F\uDE50-\uDE58'
-    r'\uDE7F\uDEF0-\uDEF6\uDF39-\uDF3F\uDF99-\uDF9C]|\uD804[\uDC47-\uDC4D'
-    r'\uDCBB\uDCBC\uDCBE-\uDCC1\uDD40-\uDD43\uDD74\uDD75\uDDC5-\uDDC9\uDDCD'
-    r'\uDDDB\uDDDD-\uDDDF\uDE38-\uDE3D\uDEA9]|\uD805[\uDCC6\uDDC1-\uDDD7'
-    r'\uDE41-\uDE43\uDF3C-\uDF3E]|\uD809[\uDC70-\uDC74]|\uD81A[\uDE6E\uDE6F'
-    r'\uDEF5\uDF37-\uDF3B\uDF44]|\uD82F\uDC9F|\uD836[\uDE87-\uDE8B]'
-)
+reAsciiPunctuation = re.compile(r'[!"#$%&\'()*+,\-./:;<=>?@\[\]\\^_`{|}~]')
 
 reLinkTitle = re.compile(
     '^(?:"(?:\\\\[^\\x00]|[^\\\\"\\x00])*"' +
@@ -77,6 +52,12 @@ def text(s):
     return node
 
 
+def is_punctuation(c):
+    """Whether c is ASCII punctuation or in a Unicode P category."""
+    return bool(re.search(reAsciiPunctuation, c)) or \
+        unicodedata.category(c).startswith('P')
+
+
 def smart_dashes(chars):
     en_count = 0
     em_count = 0
@@ -263,11 +244,11 @@ class InlineParser(object):
         # Python 2 doesn't recognize '\xa0' as whitespace
         after_is_whitespace = re.search(reUnicodeWhitespaceChar, c_after) or \
             c_after == '\xa0'
-        after_is_punctuation = re.search(rePunctuation, c_after)
+        after_is_punctuation = is_punctuation(c_after)
         before_is_whitespace = re.search(
             reUnicodeWhitespaceChar, c_before) or \
             c_before == '\xa0'
-        before_is_punctuation = re.search(rePunctuation, c_before)
+        before_is_punctuation = is_punctuation(c_before)
 
         left_flanking = not after_is_whitespace and \
             (not after_is_punctuation or
-- 
2.43.0


From 336f3636f8ea827ef1ac39ee8a19db5471cd8c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:59:03 +0000
Subject: [PATCH 32/33] fix: a bare link destination does not include control
 characters

---
 commonmark/inlines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index b42cb1c..4ba2e9b 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -33,6 +33,7 @@ reAutolink = re.compile(
     r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>',
     common.IGNORECASE)
 reSpnl = re.compile(r'^[ \t]*(?:\n[ \t]*)?')
+reSpaceOrControlChar = re.compile(r'^[\x00-\x20\x7f]')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
 # "\s" would also match other separators, such as U+001C or U+0085
@@ -482,7 +483,7 @@ class InlineParser(object):
                     else:
                         self.pos += 1
                         openparens -= 1
-                elif re.search(reWhitespaceChar, c):
+                elif re.search(reSpaceOrControlChar, c):
                     break
                 else:
                     self.pos += 1
-- 
2.43.0


From 5222ee0a38bcf6bbabe4e5631df84fbb52cd049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 33/33] fix: a text of more than 999 characters does not refer
 to a definition

---
 commonmark/inlines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 4ba2e9b..1037717 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -611,7 +611,8 @@ class InlineParser(object):
                 # If shortcut reference link, rewind before spaces we skipped.
                 self.pos = savepos
 
-            if reflabel:
+            # a text of more than 999 characters is not a label
+            if reflabel and len(reflabel) <= 1001:
                 # lookup rawlabel in refmap
                 link = self.refmap.get(normalize_reference(reflabel))
                 if link:
-- 
2.43.0

