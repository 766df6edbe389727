From 8455eb2f7cf2e8262dde6b62c5bdbe4efe08a263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:52 +0000
Subject: [PATCH 01/62] fix: keep positions aligned when upper-casing a
 reference line
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

str.upper() makes some characters longer (e.g. ß becomes SS), so everything
recognised after one of them was cut at the wrong place in the original line:
'J. Groß, A. Weiß, Phys. Rev. D 12, 123 (1999)' gave volume 2.
---
 refextract/references/tag.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index af892b7..bcf9d2c 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -128,7 +128,7 @@ def tag_reference_line(line, kbs, record_titles_count):
     working_line2 = strip_tags(working_line1)
 
     # Transform the line to upper-case, now making a new working line:
-    working_line2 = working_line2.upper()
+    working_line2 = upper_preserving_length(working_line2)
 
     # Strip punctuation from the line:
     working_line2 = re_punctuation.sub(" ", working_line2)
@@ -179,6 +179,15 @@ def tag_reference_line(line, kbs, record_titles_count):
     return tagged_line, record_titles_count
 
 
+def upper_preserving_length(line):
+    """Transform a line to upper-case without moving any of its characters
+
+    The positions found in the upper-case line are used to cut the original
+    one, so characters whose upper-case is longer (e.g. ß) are left alone.
+    """
+    return "".join(c.upper() if len(c.upper()) == 1 else c for c in line)
+
+
 def process_reference_line(
     working_line,
     journals_matches,
-- 
2.43.0


From 245cf1441e5328b044249925951481c8201a193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:52 +0000
Subject: [PATCH 02/62] fix: keep positions aligned when a quoted title
 contains an identifier

With nested tags, the placeholder of the outer tag was given the length of
another one, which shifted everything recognised after it and broke the
remaining citations of the line into pieces of internal markup.
---
 refextract/references/tag.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index bcf9d2c..4ed1aad 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -859,12 +859,12 @@ def account_for_stripped_whitespace(
 def strip_tags(line):
     # Firstly, go through and change ALL TAGS and their contents to underscores
     # author content can be checked for underscores later on
-    # Note that we don't have embedded tags this is why
-    # we can do this
+    # A tag can contain other tags (e.g. an arXiv number in a quoted title), so
+    # replace them from the inside to the outside
     re_tag = re.compile(r"<cds\.[A-Z]+>[^<]*</cds\.[A-Z]+>|<cds\.[A-Z]+ />", re.UNICODE)
-    for m in re_tag.finditer(line):
-        chars_count = m.end() - m.start()
-        line = re_tag.sub("_" * chars_count, line, count=1)
+    count = 1
+    while count:
+        line, count = re_tag.subn(lambda m: "_" * len(m.group(0)), line)
     return line
 
 
-- 
2.43.0


From e5a82fd1bae69bec0c317cb6c487f8889d1822f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:50 +0000
Subject: [PATCH 03/62] fix: do not leak internal markup from identifiers
 inside a quoted title

A quoted title (or an author) containing an arXiv number, an ISBN, a URL, a DOI
or a collaboration came out with <cds...> tags in it, and the URL or DOI it
contained was then reported in place of the next one of the line.
---
 refextract/references/engine.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 96aab19..e0f44db 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1217,7 +1217,11 @@ def parse_tagged_reference_line(line_marker, line, identified_dois, identified_u
                 processed_line = processed_line[tag_match_end:]
                 identified_citation_element = None
             else:
-                auth_txt = processed_line[tag_match_end:idx_closing_tag_nearest]
+                auth_txt = remove_embedded_tags(
+                    processed_line[tag_match_end:idx_closing_tag_nearest],
+                    identified_dois,
+                    identified_urls,
+                )
                 # Now move past the ending tag in the line:
                 processed_line = processed_line[
                     idx_closing_tag_nearest + len("</cds.AUTHxxxx>") :
@@ -1291,6 +1295,12 @@ def parse_tagged_reference_line(line_marker, line, identified_dois, identified_u
                     tag_type, processed_line[tag_match_end:], cur_misc_txt, "title"
                 )
             )
+            if identified_citation_element:
+                identified_citation_element["title"] = remove_embedded_tags(
+                    identified_citation_element["title"],
+                    identified_dois,
+                    identified_urls,
+                )
 
         elif tag_type == "ISBN":
             identified_citation_element, processed_line, cur_misc_txt = (
@@ -1353,6 +1363,23 @@ def parse_tagged_reference_line(line_marker, line, identified_dois, identified_u
     )
 
 
+def remove_embedded_tags(text, identified_dois, identified_urls):
+    """Replace the tags inside the content of another tag with their own content
+
+    The DOIs and URLs put back are removed from the lists of identified ones, so
+    that those still in the lists correspond to the remaining tags of the line.
+    """
+
+    def untag(match):
+        if match.group("type") == "DOI":
+            return identified_dois.pop(0)
+        if match.group("type") == "URL":
+            return identified_urls.pop(0)[0]
+        return " " if match.group(0) == "<cds.COLLABORATION>" else ""
+
+    return re.sub(r"</?cds\.(?P<type>[A-Za-z]+)(?:\s/)?>", untag, text)
+
+
 def map_tag_to_subfield(tag_type, line, cur_misc_txt, dest):
     """Create a new reference element"""
     closing_tag = "</cds.%s>" % tag_type
-- 
2.43.0


From af76b43f051cd0b2101499ce5386fe7873c20bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:50 +0000
Subject: [PATCH 04/62] fix: do not cut the end of a tag right before a report
 number

The character before a report number is dropped to get rid of braces; when it
was the end of an internal tag, the tag was broken and leaked in the output.
---
 refextract/references/tag.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 4ed1aad..589fc7c 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -513,7 +513,9 @@ def add_tagged_report_number(
     # of the institutional REPORT-NUMBER. However, stop 1 character before the
     # replacement index of this REPORT-NUMBER to allow for removal of braces,
     # if necessary:
-    if (true_replacement_index - startpos - 1) >= 0:
+    if (
+        true_replacement_index - startpos - 1
+    ) >= 0 and reading_line[true_replacement_index - 1] != ">":
         rebuilt_line += reading_line[startpos : true_replacement_index - 1]
     else:
         rebuilt_line += reading_line[startpos:true_replacement_index]
-- 
2.43.0


From 22bd1c5b4d4a41a77c2d6373db3c9ac72c4fc63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:50 +0000
Subject: [PATCH 05/62] fix: ignore text in a reference which looks like
 internal markup

A literal '<cds.URL />' or '<cds.DOI />' in the input raised an IndexError, and
other tags injected arbitrary elements in the result.
---
 refextract/references/engine.py | 3 +++
 refextract/references/regexs.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index e0f44db..274e360 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -50,6 +50,7 @@ from refextract.references.record import build_references
 from refextract.references.regexs import (
     get_reference_line_numeration_marker_patterns,
     re_hdl,
+    re_internal_tag,
     re_numeration_no_ibid_txt,
     re_recognised_numeration_title_plus_series,
     re_roman_numbers,
@@ -621,6 +622,8 @@ def parse_reference_line(ref_line, kbs, bad_titles_count=None, linker_callback=N
     if bad_titles_count is None:
         bad_titles_count = {}
     line_marker, ref_line = remove_reference_line_marker(ref_line)
+    # The line cannot contain tags yet, ignore text which looks like one
+    ref_line = re_internal_tag.sub("", ref_line)
     # Find DOI sections in citation
     ref_line, identified_dois = identify_and_tag_DOI(ref_line)
     # Identify and replace URLs in the line:
diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index c8c4d31..077c94b 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -455,6 +455,9 @@ re_tagged_citation = re.compile(
 )
 
 
+# Anything looking like one of the tags used to mark-up a line
+re_internal_tag = re.compile(r"</?cds\.[^<>]*/?>?", re.UNICODE)
+
 # is there pre-recognised numeration-tagging within a
 # few characters of the start if this part of the line?
 re_tagged_numeration_near_line_start = re.compile(
-- 
2.43.0


From 221b50540651ca49570a7bfedb0d3ba2259dd869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:50 +0000
Subject: [PATCH 06/62] fix: do not fail on a numeration marker which cannot be
 converted

marknum was left unset (UnboundLocalError) or kept its value from a previous
line.
---
 refextract/references/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/text.py b/refextract/references/text.py
index 80b3690..d0a2806 100644
--- a/refextract/references/text.py
+++ b/refextract/references/text.py
@@ -249,7 +249,7 @@ def rebuild_reference_lines(ref_sectn, ref_line_marker_ptn):
                 # it is not always convertible to int by int()
                 # We can't use its numerical value, but we still accept it
                 # as numeration
-                pass
+                marknum = current_ref + 1
 
             new_line_detected = False
             if marknum is None or current_ref + 1 == marknum:
-- 
2.43.0


From 3888ad72881216515403654a21f618c8a0e99477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:50 +0000
Subject: [PATCH 07/62] fix: do not fail on JHEP pages with superscript digits

Such a page passes isdigit(), but int() raises a ValueError for it.
---
 refextract/references/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 274e360..1557c16 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -162,9 +162,9 @@ def handle_special_journals(citation_elements, kbs):
                         el["page"],
                     )
                 el["volume"] = el["year"][-2:] + "%02d" % int(el["volume"])
-            if el["page"].isdigit():
+            if el["page"].isdecimal():
                 # JHEP and JCAP have always pages 3 digits long
-                el["page"] = "%03d" % int(el["page"])
+                el["page"] = el["page"].lstrip("0").zfill(3)
 
     return citation_elements
 
-- 
2.43.0


From 09f3c28888c21df6faa758c260f3237e1e3a06dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:50 +0000
Subject: [PATCH 08/62] fix: recognise ISBNs introduced by 'International
 Standard Book Number'

The pattern is a verbose one, where unescaped spaces are ignored.
---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 077c94b..c90a804 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -305,7 +305,7 @@ re_quoted = re.compile(r'"(?P<title>[^"]+)"', re.UNICODE)
 # Pattern to recognise an ISBN for a book:
 re_isbn = re.compile(
     r"""
-    (?:ISBN[-– ]*(?:|10|13)|International Standard Book Number)
+    (?:ISBN[-– ]*(?:|10|13)|International\ Standard\ Book\ Number)
     [:\s]*
     (?P<code>[-\-–0-9Xx]{10,25})""",
     re.VERBOSE | re.UNICODE,
-- 
2.43.0


From 4be8b9c940e6bc3dc70ecf6cac7d34db6a41e907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:50 +0000
Subject: [PATCH 09/62] fix: do not include the punctuation after a handle in
 the handle

'hdl:2429/54302, hep-th/9901001' gave the handle '2429/54302,'.
---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index c90a804..59e85c9 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -840,7 +840,7 @@ re_doi = re.compile(
 re_hdl = re.compile(
     r"""([hH][dD][lL]:
                           |https?://hdl\.handle\.net/)
-                         (?P<hdl_id>\S+/\S+)""",
+                         (?P<hdl_id>\S+/\S*[^\s.,;:])""",
     re.UNICODE | re.VERBOSE,
 )
 
-- 
2.43.0


From 6c3e08244b21eee27d27700927b2fe3c2c8625d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:28 +0000
Subject: [PATCH 10/62] fix: do not modify the cached journals KB while tagging
 a line

The titles of the journals_re KB were added to the cached journals KB, so they
leaked in the following calls, and a title matched by a real regular expression
raised a KeyError.
---
 refextract/references/tag.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 589fc7c..b810731 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -120,9 +120,11 @@ def tag_reference_line(line, kbs, record_titles_count):
     # Some journals need to match exact regexps because they can
     # conflict with other elements
     # e.g. DAN is also a common first name
-    standardised_titles = kbs["journals"][1]
-    standardised_titles.update(kbs["journals_re"])
-    journals_matches = identifiy_journals_re(working_line1, kbs["journals_re"])
+    journals_matches, titles_re = identifiy_journals_re(
+        working_line1, kbs["journals_re"]
+    )
+    # The KBs are shared between calls, so they must not be modified
+    standardised_titles = {**kbs["journals"][1], **titles_re}
 
     # Remove identified tags
     working_line2 = strip_tags(working_line1)
@@ -450,11 +452,13 @@ def tag_atlas_conf(line):
 
 def identifiy_journals_re(line, kb_journals):
     matches = {}
-    for pattern, _dummy_journal in kb_journals:
+    standardised_titles = {}
+    for pattern, journal in kb_journals:
         match = re.search(pattern, line)
         if match:
             matches[match.start()] = match.group(0)
-    return matches
+            standardised_titles[match.group(0)] = journal
+    return matches, standardised_titles
 
 
 def find_numeration_more(line):
-- 
2.43.0


From 024fc0693e338fd301e99a004c639f547d901b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:43 +0000
Subject: [PATCH 11/62] fix: locate journals matched by a regexp after
 punctuation

Their position was not corrected for the spaces removed before them, so they
were only recognised at the beginning of a line.
---
 refextract/references/tag.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index b810731..8986809 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -141,6 +141,12 @@ def tag_reference_line(line, kbs, record_titles_count):
         working_line2
     )
 
+    # These journals were located before the multiple spaces were removed
+    journals_matches = {
+        pos - sum(n for start, n in removed_spaces.items() if start < pos): title
+        for pos, title in journals_matches.items()
+    }
+
     # Identify and record coordinates of institute preprint report numbers:
     found_pprint_repnum_matchlens, found_pprint_repnum_replstr, working_line2 = (
         identify_report_numbers(working_line2, kbs["report-numbers"])
-- 
2.43.0


From c9c817b27b7ac43a23c753d277324b41039a7c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:59 +0000
Subject: [PATCH 12/62] fix: add up the statistics of all the reference lines

The totals were replaced by the counts of the last line.
---
 refextract/references/tag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 8986809..11a40c0 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1086,7 +1086,7 @@ def sum_2_dictionaries(dicta, dictb):
     """
     dict_out = dicta.copy()
     for key in dictb:
-        if "key" in dict_out:
+        if key in dict_out:
             # Add the sum for key in dictb to that of dict_out:
             dict_out[key] += dictb[key]
         else:
-- 
2.43.0


From 849cdcbd8d87c52150ee59e1be8d30657fd6ffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:30 +0000
Subject: [PATCH 13/62] fix: do not use KBs from other calls

A KB which failed to load left the previous one in use, changes made by the
caller to a KB he had already passed were ignored, and the KBs of a running
extraction were replaced by those of an other thread.
---
 refextract/references/kbs.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index b909067..4ce8d6e 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -22,8 +22,10 @@
 # or submit itself to any jurisdiction.
 
 import contextlib
+import copy
 import csv
 import re
+import threading
 
 from refextract.documents.text import re_group_captured_multiple_space
 from refextract.references.config import CFG_REFEXTRACT_KBS
@@ -36,6 +38,9 @@ from refextract.references.regexs import (
 )
 
 
+kbs_cache_lock = threading.RLock()
+
+
 @contextlib.contextmanager
 def file_resolving(fpath, reader=None, **kwargs):
     if isinstance(fpath, str):
@@ -63,11 +68,19 @@ def get_kbs(custom_kbs=None, cache={}, cache_inputs={}):  # noqa
     if custom_kbs:
         kbs.update({kb_type: kb for (kb_type, kb) in custom_kbs.items() if kb})
 
-    for kb_type, kb in kbs.items():
-        if kb != cache_inputs.get(kb_type):
-            cache_inputs[kb_type] = kb
-            cache[kb_type] = load_kb_by_type(kb_type, kb)
-    return cache
+    with kbs_cache_lock:
+        for kb_type, kb in kbs.items():
+            # The order of the entries of a KB matters
+            kb_input = list(kb.items()) if isinstance(kb, dict) else kb
+            if kb_type not in cache or kb_input != cache_inputs[kb_type]:
+                cache[kb_type] = load_kb_by_type(kb_type, kb)
+                # Only a KB which has been loaded can be reused, and only as
+                # long as the caller does not modify what it was loaded from
+                cache_inputs[kb_type] = (
+                    copy.deepcopy(kb_input) if isinstance(kb_input, list) else kb_input
+                )
+        # The next call can load other KBs in the cache
+        return cache.copy()
 
 
 def load_kb_by_type(kb_type, kb):
-- 
2.43.0


From 11cb94dcba6837904abc206e1ee03c82d54d9fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:39 +0000
Subject: [PATCH 14/62] fix: do not fail on files which are empty or have no
 end of PDF marker

They raised ValueError from the PDF cleaning, instead of being handled by the
document type.
---
 refextract/references/engine.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 1557c16..4260ee6 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -25,6 +25,7 @@
 
 import logging
 import mmap
+import os
 import re
 from datetime import datetime
 
@@ -1479,6 +1480,10 @@ def clean_pdf_file(filename):
     """
     strip leading and/or trailing junk from a PDF file
     """
+    if os.path.getsize(filename) == 0:
+        # an empty file cannot be mapped
+        LOGGER.debug("not a PDF file")
+        return
     with (
         open(filename, "r+b") as file,
         mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_WRITE) as mmfile,
@@ -1490,6 +1495,10 @@ def clean_pdf_file(filename):
             return
         end = mmfile.rfind(b"%%EOF")
         offset = len(b"%%EOF")
+        if end < start:
+            # without an end marker, there is no junk to tell from the document
+            LOGGER.debug("no end of PDF found")
+            return
         if start > 0:
             LOGGER.debug("moving and truncating")
             mmfile.move(0, start, end + offset - start)
-- 
2.43.0


From 3dd3ee06bb763361914363324a86d11dd49f2a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:39 +0000
Subject: [PATCH 15/62] fix: read plain text documents independently of the
 locale

A document with bytes which are not valid in the encoding of the locale raised
UnicodeDecodeError.
---
 refextract/references/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 4260ee6..24f2fbd 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1526,7 +1526,7 @@ def get_plaintext_document_body(fpath, keep_layout=False):
     mime_type = magic.from_file(fpath, mime=True)
 
     if mime_type == "text/plain":
-        with open(fpath, "r") as f:
+        with open(fpath, encoding="utf-8", errors="replace") as f:
             textbody = f.readlines()
     elif mime_type == "application/pdf":
         textbody = convert_PDF_to_plaintext(fpath, keep_layout)
-- 
2.43.0


From e0b16727fb721a584fc4fee451cda4e768fd0976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:39 +0000
Subject: [PATCH 16/62] fix: wait for the end of pdftotext

---
 refextract/documents/pdf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/refextract/documents/pdf.py b/refextract/documents/pdf.py
index ce1f207..e3a8aab 100644
--- a/refextract/documents/pdf.py
+++ b/refextract/documents/pdf.py
@@ -76,9 +76,10 @@ def convert_PDF_to_plaintext(fpath, keep_layout=False):
 
     LOGGER.debug("%s", " ".join(cmd_pdftotext))
     # open pipe to pdftotext:
-    pipe_pdftotext = subprocess.Popen(cmd_pdftotext, stdout=subprocess.PIPE)
-    # read back results:
-    for docline in pipe_pdftotext.stdout:
+    with subprocess.Popen(cmd_pdftotext, stdout=subprocess.PIPE) as pipe_pdftotext:
+        # read back results:
+        output = pipe_pdftotext.stdout.readlines()
+    for docline in output:
         unicodeline = docline.decode("utf-8")
         # Check for a page-break in this line:
         m_break_in_line = p_break_in_line.match(unicodeline)
-- 
2.43.0


From fb5da82932e746281fa47dba475a31f78dd28c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:56 +0000
Subject: [PATCH 17/62] fix: give each URL of a PDF to the reference it is in

URLs were given to references of the previous page at the same height, and URLs
of a reference continued on the next page were lost.
---
 refextract/references/pdf.py | 76 ++++++------------------------------
 1 file changed, 12 insertions(+), 64 deletions(-)

diff --git a/refextract/references/pdf.py b/refextract/references/pdf.py
index 010943b..f3410b4 100644
--- a/refextract/references/pdf.py
+++ b/refextract/references/pdf.py
@@ -119,79 +119,27 @@ def extract_texkeys_and_urls_from_pdf(pdf_file):
 def _match_urls_with_reference(
     urls_to_match, reference, next_reference=None, two_column_layout=False
 ):
+    def reading_order(position):
+        page_number, column, y, _ = position
+        return (page_number, column, y) if two_column_layout else (page_number, y)
+
     ref_page_number, ref_column, ref_y, _ = reference[1]
-    if next_reference:
-        next_ref_page_number, next_ref_col, next_ref_y, _ = next_reference[1]
     urls_for_reference = set()
     for url_index, url in enumerate(urls_to_match):
         url_page_number, url_col, url_y, _ = url[1]
-        is_url_under_texkey = ref_y <= url_y
-        is_url_in_same_col = ref_column == url_col
-        is_url_in_next_col = url_col > ref_column
-        is_reference_on_same_page_as_url = ref_page_number == url_page_number
-        is_reference_on_previous_page_than_url = ref_page_number + 1 == url_page_number
         if not next_reference:
             if (
-                (
-                    is_reference_on_same_page_as_url
-                    and (is_url_in_same_col or is_url_in_next_col)
-                )
-                or is_reference_on_previous_page_than_url
-            ) and is_url_under_texkey:
+                (ref_page_number == url_page_number and url_col >= ref_column)
+                or ref_page_number + 1 == url_page_number
+            ) and ref_y <= url_y:
                 urls_for_reference.add(url[0])
             continue
-        is_url_between_texkeys = (
-            is_reference_on_same_page_as_url or is_reference_on_previous_page_than_url
-        ) and (ref_y <= url_y <= next_ref_y)
-        is_next_reference_on_the_same_page = next_ref_page_number == url_page_number
-        is_last_reference_in_page = (
-            is_reference_on_same_page_as_url
-            and (next_ref_page_number > url_page_number)
-            and is_url_under_texkey
-        )
-        is_last_reference_in_page_two_col_layout = (
-            is_reference_on_same_page_as_url
-            and is_next_reference_on_the_same_page
-            and is_url_under_texkey
-            and (next_ref_col > url_col)
-            and next_ref_y < url_y
-            and ref_y <= url_y
-            and (is_url_in_same_col or is_url_in_next_col)
-        )
-        is_in_new_column = (
-            is_reference_on_same_page_as_url
-            and is_next_reference_on_the_same_page
-            and ref_y > url_y
-            and (next_ref_col > ref_column)
-            and (next_ref_y > url_y)
-        )
-        is_url_for_other_reference_in_new_column = (
-            is_reference_on_same_page_as_url
-            and (next_ref_page_number == url_page_number)
-            and (next_ref_col == ref_column < url_col)
-            and (next_ref_y > url_y)
-        )
-        is_url_unrelated_to_references = ref_page_number > url_page_number
-        is_url_for_next_reference = url_y >= next_ref_y
-        if is_url_between_texkeys:
-            if not two_column_layout or (two_column_layout and url_col == ref_column):
-                urls_for_reference.add(url[0])
-                continue
-        elif (
-            is_last_reference_in_page
-            or is_last_reference_in_page_two_col_layout
-            or is_in_new_column
-        ):
+        if reading_order(url[1]) >= reading_order(next_reference[1]):
+            # the urls are sorted, so all the other ones are for other references
+            return urls_for_reference, urls_to_match[url_index:]
+        if reading_order(url[1]) >= reading_order(reference[1]):
             urls_for_reference.add(url[0])
-            continue
-        elif is_url_unrelated_to_references:
-            continue
-        elif is_url_for_next_reference or is_url_for_other_reference_in_new_column:
-            urls_to_match = urls_to_match[url_index:]
-            break
-    if not next_reference:
-        urls_to_match = []
-    return urls_for_reference, urls_to_match
+    return urls_for_reference, []
 
 
 def _destinations_in_two_columns(pdf, destinations, cutoff=3):
-- 
2.43.0


From 2b1a56516764feb5196ca89012085fc293278104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:16 +0000
Subject: [PATCH 18/62] fix: add the URLs of a PDF in a reproducible order

---
 refextract/references/record.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/record.py b/refextract/references/record.py
index e00522e..abb6b87 100644
--- a/refextract/references/record.py
+++ b/refextract/references/record.py
@@ -160,7 +160,8 @@ def build_reference_fields(citation_elements, line_marker, raw_ref, reference_fo
 
 
 def update_reference_with_urls(reference, url_set):
-    for url in url_set:
+    # the order of a set is not reproducible
+    for url in sorted(url_set):
         add_subfield(reference, "url", url)
 
 
-- 
2.43.0


From 1c1f4aeab18b5e9260087bc70c7734202edcc6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:16 +0000
Subject: [PATCH 19/62] fix: do not fail on URLs longer than a file name

---
 refextract/references/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/api.py b/refextract/references/api.py
index 26af485..9a0e5a1 100644
--- a/refextract/references/api.py
+++ b/refextract/references/api.py
@@ -81,7 +81,8 @@ def extract_references_from_url(url, headers=None, chunk_size=1024, **kwargs):
     """
     # Get temporary filepath to download to
     filename, filepath = mkstemp(
-        suffix="_{0}".format(os.path.basename(url)),
+        # the length of file names is limited, unlike the one of URLs
+        suffix="_{0}".format(os.path.basename(url)[-50:]),
     )
     os.close(filename)
 
-- 
2.43.0


From 58f37e24ddcc796c829163a7b3d7431756201eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:55 +0000
Subject: [PATCH 20/62] fix: do not add blank values to a reference

---
 refextract/references/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/record.py b/refextract/references/record.py
index abb6b87..1e38230 100644
--- a/refextract/references/record.py
+++ b/refextract/references/record.py
@@ -50,7 +50,7 @@ def build_references(citations, reference_format=False):
 
 
 def add_subfield(field, code, value):
-    if value:
+    if value and value.strip():
         field.setdefault(code, []).append(value)
 
 
-- 
2.43.0


From 173dddaeac9ca278569dc2ef34766f679a80dc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:45 +0000
Subject: [PATCH 21/62] fix: do not return references made of blank lines

---
 refextract/references/text.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/refextract/references/text.py b/refextract/references/text.py
index d0a2806..9ff76a1 100644
--- a/refextract/references/text.py
+++ b/refextract/references/text.py
@@ -276,8 +276,7 @@ def rebuild_reference_lines(ref_sectn, ref_line_marker_ptn):
                     working_ref.append(line[:start])
 
                 # Append current working line to the refs list
-                if working_ref:
-                    rebuilt_references.append(prepare_ref(working_ref))
+                rebuilt_references.append(prepare_ref(working_ref))
 
                 current_ref = marknum
                 working_ref = []
@@ -295,11 +294,11 @@ def rebuild_reference_lines(ref_sectn, ref_line_marker_ptn):
             # Continuation of line
             working_ref.append(line)
 
-    if working_ref:
-        # Append last line
-        rebuilt_references.append(prepare_ref(working_ref))
+    # Append last line
+    rebuilt_references.append(prepare_ref(working_ref))
 
-    return rebuilt_references
+    # Blank lines are not references
+    return [reference for reference in rebuilt_references if reference]
 
 
 def wash_and_repair_reference_line(line):
-- 
2.43.0


From 637fea1202afa8bdb78ce51fc063b44fe6f1c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:43 +0000
Subject: [PATCH 22/62] fix: do not drop the character after a numeration
 without year

It could be the semicolon before the next citation.
---
 refextract/references/tag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 11a40c0..82a23d0 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -686,6 +686,9 @@ def add_tagged_journal(
             # Now look for more funky numeration
             # With possibly some elements before the journal title
             numerotation_info = find_numeration_more(numeration_line)
+            if numerotation_info:
+                # The space after the title is not in the reading line
+                numerotation_info["len"] -= 1
 
         if not numerotation_info:
             startpos = old_startpos
-- 
2.43.0


From eb2f3e2d2196df195943927b35cbbf50af6952df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:01 +0000
Subject: [PATCH 23/62] fix: do not double the semicolon after an author group

---
 refextract/references/tag.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 82a23d0..6b79ae0 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1012,10 +1012,7 @@ def identify_and_tag_authors(line, authors_kb):
             add_to_misc = ""
             # If a semi-colon was found at the end of this author group, keep it in misc
             # so that it can be looked at for splitting heurisitics
-            if (
-                len(output_line) > m["end"]
-                and output_line[m["end"]].strip(" ,.") == ";"
-            ):
+            if output_line[start:end].rstrip(" ,.").endswith(";"):
                 add_to_misc = ";"
 
             # Standardize eds. notation
-- 
2.43.0


From a0a0ef780c58afd9c19bbf50546671799fa3dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:54 +0000
Subject: [PATCH 24/62] fix: do not include the punctuation after a DOI in the
 DOI

---
 refextract/references/regexs.py | 2 +-
 refextract/references/tag.py    | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 59e85c9..ff07826 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -831,7 +831,7 @@ re_doi = re.compile(
     (\.\w+)*                           # subdivisions separated by . (optional)
     (/|%2f)                            # / (possibly urlencoded)
     [\w\-_:;\(\)/\.<>]+                # any character
-    [\w\-_:;\(\)/<>])                  # any character excluding a full stop
+    [\w\-_\(\)/<>])                    # any character excluding ending punctuation
     """,
     re.VERBOSE + re.IGNORECASE,
 )
diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 6b79ae0..687a2da 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1480,6 +1480,10 @@ def identify_and_tag_DOI(line):
         end = match.end()
         # Get the actual DOI string (remove the url part of the doi string)
         doi_phrase = match.group("doi")
+        if doi_phrase.endswith(")") and doi_phrase.count(")") > doi_phrase.count("("):
+            # The DOI is in parentheses
+            doi_phrase = doi_phrase[:-1]
+            end -= 1
         if "%2f" in doi_phrase.lower():
             doi_phrase = unquote(doi_phrase)
 
-- 
2.43.0


From 2eceff7908fb194131992fbd5929de4aef85666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:41 +0000
Subject: [PATCH 25/62] fix: keep the text before a repeated collaboration

---
 refextract/references/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 24f2fbd..bdf7665 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -544,7 +544,8 @@ def remove_duplicated_collaborations(splitted_citations):
         for el in citation[:]:
             if el["type"] == "COLLABORATION":
                 if el["collaboration"] in collabs:
-                    citation.remove(el)
+                    # the text before the duplicate has to be kept
+                    el["type"] = "MISC"
                 else:
                     collabs.append(el["collaboration"])
 
-- 
2.43.0


From 442c0a1d85aded39dd9b4af276b41141f211f9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:48 +0000
Subject: [PATCH 26/62] fix: keep a book of the KB where its title was found

The text before the title was lost, with the semicolon between two citations
it may contain, and the book was given to the last citation of the line.
---
 refextract/references/engine.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index bdf7665..89ba8bc 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -234,13 +234,12 @@ def look_for_books(citation_elements, kbs):
             line = kbs["books"][normalized_title]
             el = {
                 "type": "BOOK",
-                "misc_txt": "",
+                "misc_txt": title["misc_txt"],
                 "authors": line[0],
                 "title": line[1],
                 "year": line[2].strip(";"),
             }
-            citation_elements.append(el)
-            citation_elements.remove(title)
+            citation_elements[citation_elements.index(title)] = el
 
     return citation_elements
 
@@ -444,7 +443,7 @@ def add_year_elements(splitted_citations):
                 continue
 
         year = None
-        for el in citation:
+        for el in sorted(citation, key=lambda el: el["type"] != "JOURNAL"):
             if el["type"] == "JOURNAL" or el["type"] == "BOOK" and "year" in el:
                 year = el["year"]
                 break
-- 
2.43.0


From 5af16570350bb8b5da031bb33b4e84158fb50d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:38 +0000
Subject: [PATCH 27/62] fix: keep the text before a special journal without
 page

---
 refextract/references/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 89ba8bc..e85796e 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -157,7 +157,7 @@ def handle_special_journals(citation_elements, kbs):
                 # actually a year, so we skip this reference
                 if el["year"] == "" and re.match(r"(19|20)\d{2}$", el["page"]):
                     el["type"] = "MISC"
-                    el["misc_txt"] = "%s,%s,%s" % (
+                    el["misc_txt"] += "%s,%s,%s" % (
                         el["title"],
                         el["volume"],
                         el["page"],
-- 
2.43.0


From 006c498f6ec0bb65df273ff0a61c3d8543087205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:00 +0000
Subject: [PATCH 28/62] fix: do not lose or repeat text when carrying authors
 over

The last authors before a semicolon were lost when the next citation had its
own, and the text before carried over authors was repeated.
---
 refextract/references/engine.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index e85796e..a3adbf0 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -312,15 +312,16 @@ def split_needed(next_el, current_types, last_type):
     return None
 
 
-def postpone_last_auth(current_citation, num_auth):
+def postpone_last_auth(current_citation, num_auth, split_reason):
     if num_auth == 0:
         return None
 
-    func = current_citation.__getitem__ if num_auth == 1 else current_citation.pop
-
     for idx, el in enumerate(reversed(current_citation), 1):
         if el["type"] == "AUTH":
-            return func(-idx)
+            if num_auth > 1 and split_reason == "repeated field":
+                return current_citation.pop(-idx)
+            # the text before the authors stays where it is
+            return dict(el, misc_txt="")
 
 
 def split_citations_iter(citation_elements):
@@ -349,7 +350,9 @@ def split_citations_iter(citation_elements):
             ):
                 current_citation.insert(0, postponed_auth)
                 num_auth += 1
-            postponed_auth = postpone_last_auth(current_citation, num_auth)
+            postponed_auth = postpone_last_auth(
+                current_citation, num_auth, split_reason
+            )
             yield current_citation
 
             current_citation = []
-- 
2.43.0


From eac1e0832a1e33040e8207b2961e256ae9e66892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:15 +0000
Subject: [PATCH 29/62] fix: do not join words or cut numbers when removing a
 year

---
 refextract/references/regexs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index ff07826..771f148 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -1109,5 +1109,10 @@ def remove_year(s, year=None):
     year_pattern = re.escape(year) if year else "(?:19|20)\\d{2}"
     s = re.sub(r"\[\s*%s\s*\]" % year_pattern, "", s)
     s = re.sub(r"\(\s*%s\s*\)" % year_pattern, "", s)
-    s = re.sub(r"\s*%s\s*" % year_pattern, "", s)
+    # not a part of a longer number, and without joining the words around it
+    s = re.sub(
+        r"(\s*)(?<!\d)%s(?!\d)(\s*)" % year_pattern,
+        lambda match: " " if match.group(1) and match.group(2) else "",
+        s,
+    )
     return s
-- 
2.43.0


From 0e0797e5d4bf5e8170a15db854c2adafed7cdce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:09 +0000
Subject: [PATCH 30/62] fix: do not need exponential time to look for missed
 authors

---
 refextract/authors/regexs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/refextract/authors/regexs.py b/refextract/authors/regexs.py
index c1a92ca..55d9afd 100644
--- a/refextract/authors/regexs.py
+++ b/refextract/authors/regexs.py
@@ -523,13 +523,15 @@ def get_author_regexps():
         # ELIF an auth-misc-auth combo was hit, do re.match using this pattern
         re_weaker_author = r"""
               ## look closely for initials, and less closely at the last name.
-              (?:([A-Z]((\.\s?)|(\.?\s+)|(\-))){1,5}
-              (?:[^\s_<>0-9]+(?:(?:[,\.]\s*)|(?:[,\.]?\s+)))+)"""
+              ## The names after it can all be matched as last names, and in one
+              ## way only: the time needed is exponential in their number otherwise
+              [A-Z](?:\.\s?|\.?\s+|\-)
+              (?:[^\s_<>0-9]+\s+)*[^\s_<>0-9]+(?:\s+|[,\.])"""
 
         # End of line MUST match, since the next string is definitely a portion
         # of an author group (append '$')
         RE_AUTH_NEAR_MISS = re.compile(
-            make_auth_regex_str(re_etal, "(" + re_weaker_author + ")+$"),
+            make_auth_regex_str(re_etal, "(?:" + re_weaker_author + ")$"),
             re.VERBOSE | re.UNICODE,
         )
 
-- 
2.43.0


From 4b1e968222933cde0192be7d2cf56d58a434cf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:27 +0000
Subject: [PATCH 31/62] fix: do not join a URL with the link right after it

---
 refextract/references/tag.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 687a2da..e979bd5 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1405,9 +1405,9 @@ def identify_and_tag_URLs(line):
         found_url_full_matchlen[startposn] = matchlen
         found_url_urlstring[startposn] = m_tagged_url.group("url")
         found_url_urldescr[startposn] = m_tagged_url.group("desc")
-        # temporarily replace the URL match with underscores so that
-        # it won't be re-found
-        line = line[0:startposn] + "_" * matchlen + line[endposn:]
+        # temporarily replace the URL match with spaces so that
+        # it won't be re-found (spaces cannot be part of another URL)
+        line = line[0:startposn] + " " * matchlen + line[endposn:]
 
     # Attempt to identify and tag all RAW (i.e. not
     # HTML-marked-up) URLs in the line:
-- 
2.43.0


From 0f0d5dc9e931cfbb6181eae49d7a99285dd0fd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:53 +0000
Subject: [PATCH 32/62] fix: do not include a closing bracket after a handle in
 the handle

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 771f148..bec016e 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -840,7 +840,7 @@ re_doi = re.compile(
 re_hdl = re.compile(
     r"""([hH][dD][lL]:
                           |https?://hdl\.handle\.net/)
-                         (?P<hdl_id>\S+/\S*[^\s.,;:])""",
+                         (?P<hdl_id>\S+/\S*[^\s.,;:)\]}])""",
     re.UNICODE | re.VERBOSE,
 )
 
-- 
2.43.0


From d7be73b3d15d38320fd18c3719752bb1c9c2209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:53 +0000
Subject: [PATCH 33/62] fix: keep a handle in the citation it is printed in

---
 refextract/references/engine.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index a3adbf0..c3eff50 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -577,15 +577,24 @@ def look_for_hdl(citation_elements):
     @param citation_elements: (list) elements to process
     """
     for el in list(citation_elements):
-        matched_hdl = re_hdl.finditer(el["misc_txt"])
-        for match in reversed(list(matched_hdl)):
-            hdl_el = {
-                "type": "HDL",
-                "hdl_id": match.group("hdl_id"),
-                "misc_txt": el["misc_txt"][match.end() :],
-            }
-            el["misc_txt"] = el["misc_txt"][0 : match.start()]
-            citation_elements.insert(citation_elements.index(el) + 1, hdl_el)
+        matched_hdl = list(re_hdl.finditer(el["misc_txt"]))
+        if not matched_hdl:
+            continue
+        # The misc text of an element is before the element
+        hdl_els = []
+        start = 0
+        for match in matched_hdl:
+            hdl_els.append(
+                {
+                    "type": "HDL",
+                    "hdl_id": match.group("hdl_id"),
+                    "misc_txt": el["misc_txt"][start : match.start()],
+                }
+            )
+            start = match.end()
+        el["misc_txt"] = el["misc_txt"][start:]
+        pos = next(i for i, x in enumerate(citation_elements) if x is el)
+        citation_elements[pos:pos] = hdl_els
 
 
 def look_for_hdl_urls(citation_elements):
-- 
2.43.0


From 37d8ab30c6c655df262dc49aefd95cb72f047339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:40 +0000
Subject: [PATCH 34/62] fix: try the longest report number categories first

The padding of the KB lines was part of the categories, so their length was
not the one of the category.
---
 refextract/references/kbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 4ce8d6e..815104c 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -360,8 +360,8 @@ def build_reportnum_kb(fpath):
                 with contextlib.suppress(AttributeError, NameError):
                     current_institute_preprint_classifications.append(
                         (
-                            m_preprint_classification.group(1),
-                            m_preprint_classification.group(2),
+                            m_preprint_classification.group(1).strip(),
+                            m_preprint_classification.group(2).strip(),
                         )
                     )
                 continue
-- 
2.43.0


From ac5fc5343792e9e28b4e0c6c5d6af70fce6a0c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:40 +0000
Subject: [PATCH 35/62] fix: recognise the report numbers of JINR and of CERN
 brochures

The patterns did not match what is printed (upper-cased line, separator).
---
 refextract/references/kbs/report-numbers.kb | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/refextract/references/kbs/report-numbers.kb b/refextract/references/kbs/report-numbers.kb
index caf02d9..ed82dc8 100644
--- a/refextract/references/kbs/report-numbers.kb
+++ b/refextract/references/kbs/report-numbers.kb
@@ -317,7 +317,7 @@ CMS UG TP       ---CMS-UG-TP
 CERN GE         ---CERN-GE
 
 *****CERN with language*****
-<syyyys9?9?9sEng>
+<syyyys9?9?9sENG>
 
 CERN BROCHURE   ---CERN-BROCHURE
 
@@ -447,8 +447,8 @@ IHEP TH       ---IHEP-TH
 IPAC          ---IPAC
 
 *****JINR*****
-<[EP]9?9syys9?9?9>
-<[EP]9?9syyyys9?9?9>
+<s[EP]9?9syys9?9?9>
+<s[EP]9?9syyyys9?9?9>
 
 JINR          ---JINR
 
-- 
2.43.0


From 988730facbfa671db82b2972bff2185a040d6b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:45 +0000
Subject: [PATCH 36/62] fix: accept versions of arXiv preprints of more than
 one digit

---
 refextract/references/regexs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index bec016e..5e0928c 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -92,7 +92,7 @@ re_pos = compute_pos_patterns(re_pos_patterns)
 re_arxiv = re.compile(
     r"""
     ARXIV[\s:-]*(?P<year>\d{2})-?(?P<month>\d{2})
-    [\s.-]*(?P<num>\d{4})(?!\d)(?:[\s-]*V(?P<version>\d))?
+    [\s.-]*(?P<num>\d{4})(?!\d)(?:[\s-]*V(?P<version>\d{1,3}))?
     \s*(?P<suffix>\[[A-Z.-]+\])? """,
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
 )
@@ -100,7 +100,7 @@ re_arxiv = re.compile(
 re_arxiv_5digits = re.compile(
     r"""
     ARXIV[\s:-]*(?P<year>(1[3-9]|[2-8][0-9]))-?(?P<month>(0[1-9]|1[0-2]))
-    [\s.-]*(?P<num>\d{5})(?!\d)(?:[\s-]*V(?P<version>\d))?
+    [\s.-]*(?P<num>\d{5})(?!\d)(?:[\s-]*V(?P<version>\d{1,3}))?
     \s*(?P<suffix>\[[A-Z.-]+\])? """,
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
 )
@@ -282,7 +282,7 @@ re_new_arxiv = re.compile(
     (?<!ARXIV:)(?<!\d)
     (?P<year>%(arxiv_years)s)
     (?P<month>(0[1-9]|1[0-2]))
-    \.(?P<num>\d{4})(?:[\s-]*V(?P<version>\d))?(?!\d)
+    \.(?P<num>\d{4})(?:[\s-]*V(?P<version>\d{1,3}))?(?!\d)
     \s*(?P<suffix>\[[A-Z.-]+\])? """
     % {"arxiv_years": arxiv_years},
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
@@ -293,7 +293,7 @@ re_new_arxiv_5digits = re.compile(
     (?<!ARXIV:)(?<!\d)
     (?P<year>%(arxiv_years)s)
     (?P<month>(0[1-9]|1[0-2]))
-    \.(?P<num>\d{5})(?:[\s-]*V(?P<version>\d))?(?!\d)
+    \.(?P<num>\d{5})(?:[\s-]*V(?P<version>\d{1,3}))?(?!\d)
     \s*(?P<suffix>\[[A-Z.-]+\])? """
     % {"arxiv_years": arxiv_years_5digits},
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
-- 
2.43.0


From 0fe050d4b175de118f020901a3ade9ea8d8e26a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:45 +0000
Subject: [PATCH 37/62] fix: read ep-th as hep-th

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 5e0928c..a2a5044 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -199,7 +199,7 @@ old_arxiv = {
     r"nlin-si": "nlin.si",
     r"quantum-ph": "quant-ph",
     r"ep-ph": "hep-ph",
-    r"ep-th": "hep-ph",
+    r"ep-th": "hep-th",
     r"ep-ex": "hep-ex",
     r"hept-h": "hep-th",
     r"hepp-h": "hep-ph",
-- 
2.43.0


From fae5854bb3dce1a366e4469b71eb122f2f1b73cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:58 +0000
Subject: [PATCH 38/62] fix: do not cut two-part report numbers nor add digits
 of a year to them

The patterns were ordered by the length of their text, and matched a part of the
next number.
---
 refextract/references/kbs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 815104c..8c85176 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -121,7 +121,8 @@ def order_reportnum_patterns_bylen(numeration_patterns):
     """
     pattern_list = []
     for pattern in numeration_patterns:
-        base_pattern = re_regexp_character_class.sub("1", pattern)
+        # 9? is at most one character
+        base_pattern = re_regexp_character_class.sub("1", pattern).replace("?", "")
         pattern_list.append((len(base_pattern), pattern))
     pattern_list.sort(key=lambda x: x[0], reverse=True)
     return pattern_list
@@ -284,7 +285,7 @@ def build_reportnum_kb(fpath):
                     + classification[0].strip()
                     + ")"
                     + numeration_regexp
-                    + r"[\]\)]?)"
+                    + r"(?!\d)[\]\)]?)"
                 )
 
                 re_search_pattern = re.compile(search_pattern_str, re.UNICODE)
-- 
2.43.0


From 1d99e4d20c40915e2cfe472e7fbba9f29e18fad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:58 +0000
Subject: [PATCH 39/62] fix: read the header of the LHC report numbers with a
 year

Their numeration was used for the other LHC report numbers as well, so that the
year after a report number was added to it.
---
 refextract/references/kbs/report-numbers.kb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/kbs/report-numbers.kb b/refextract/references/kbs/report-numbers.kb
index ed82dc8..c316f79 100644
--- a/refextract/references/kbs/report-numbers.kb
+++ b/refextract/references/kbs/report-numbers.kb
@@ -336,7 +336,7 @@ ATC TT ID               ---ATC-TT-ID
 ATC TT IN               ---ATC-TT-IN
 LHCCP                   ---LHCCP
 
-***LHC OTHER FORMAT*****
+*****LHC OTHER FORMAT*****
 <syyyys9?9?9?9>
 
 CERN ACC               ---CERN-ACC
-- 
2.43.0


From dfcac597cad84e4ab6f311c6ed3eb6ca542bc006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:20 +0000
Subject: [PATCH 40/62] fix: do not cut a year out of a word

---
 refextract/references/regexs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index a2a5044..50f7c53 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -1109,10 +1109,10 @@ def remove_year(s, year=None):
     year_pattern = re.escape(year) if year else "(?:19|20)\\d{2}"
     s = re.sub(r"\[\s*%s\s*\]" % year_pattern, "", s)
     s = re.sub(r"\(\s*%s\s*\)" % year_pattern, "", s)
-    # not a part of a longer number, and without joining the words around it
+    # not a part of a longer word, and without joining the words around it
     s = re.sub(
-        r"(\s*)(?<!\d)%s(?!\d)(\s*)" % year_pattern,
-        lambda match: " " if match.group(1) and match.group(2) else "",
+        r"\s*(?<!\w)%s(?!\w)(\s*)" % year_pattern,
+        lambda match: " " if match.group(1) else "",
         s,
     )
     return s
-- 
2.43.0


From f57e469ea33b3b968d34c72af7f6f3ea78096ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:20 +0000
Subject: [PATCH 41/62] fix: do not add an empty reference after a semicolon at
 the end of an entry

---
 refextract/references/engine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index c3eff50..e2ec09d 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -340,6 +340,11 @@ def split_citations_iter(citation_elements):
     prev_split_reason = None
 
     for el in citation_elements:
+        if el["type"] == "MISC":
+            # a semicolon at the end of the line does not start a new citation
+            before, semicolon, after = el["misc_txt"].partition(";")
+            if semicolon and not after.strip("., [](){};"):
+                el["misc_txt"] = before
         split_reason = split_needed(el, current_types, last_type)
         if split_reason:
             if split_reason == "semicolon":
-- 
2.43.0


From dbdc475eae1c03e2b7796f98a4399594b40b004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:29 +0000
Subject: [PATCH 42/62] fix: recognise a collaboration followed by a semicolon

---
 refextract/references/kbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 8c85176..f5a8185 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -579,7 +579,7 @@ def build_collaborations_kb(knowledgebase):
     for pattern, collab in knowledgebase:
         prefix = r"(?:^|[\(\"\[\s]|(?<=\W))\s*(?:(?:the|and)\s+)?"
         collaboration_pattern = r"(?:\s*coll(?:aborations?|\.)?)?"
-        suffix = r"(?=$|[><\]\)\"\s.,:])"
+        suffix = r"(?=$|[><\]\)\"\s.,:;])"
         pattern = pattern.replace(" ", r"\s")
         pattern = pattern.replace("Collaboration", collaboration_pattern)
         re_pattern = "%s(%s)%s" % (prefix, pattern, suffix)
-- 
2.43.0


From 6e3f59dba2cdf20e296d09ea58d432b0b6b4e4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:20 +0000
Subject: [PATCH 43/62] fix: recognise the blank lines of a string like those
 of a file

---
 refextract/documents/text.py  | 4 ++--
 refextract/references/text.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/refextract/documents/text.py b/refextract/documents/text.py
index 7184fa4..bf219f6 100644
--- a/refextract/documents/text.py
+++ b/refextract/documents/text.py
@@ -272,7 +272,7 @@ def get_number_header_lines(docbody, page_break_posns):
         keep_checking = 1
         while keep_checking:
             cur_break = 1
-            if docbody[(page_break_posns[cur_break] + num_header_lines + 1)].isspace():
+            if not docbody[page_break_posns[cur_break] + num_header_lines + 1].strip():
                 # this is a blank line
                 empty_line = 1
 
@@ -341,7 +341,7 @@ def get_number_footer_lines(docbody, page_break_posns):
             ):
                 # Be sure that the docbody list boundary wasn't overstepped:
                 break
-            if docbody[(page_break_posns[cur_break] - num_footer_lines - 1)].isspace():
+            if not docbody[page_break_posns[cur_break] - num_footer_lines - 1].strip():
                 empty_line = 1
             grps_headLineWords = p_wordSearch.findall(
                 docbody[(page_break_posns[cur_break] - num_footer_lines - 1)]
diff --git a/refextract/references/text.py b/refextract/references/text.py
index 9ff76a1..f2314c4 100644
--- a/refextract/references/text.py
+++ b/refextract/references/text.py
@@ -339,11 +339,11 @@ def test_for_blank_lines_separating_reference_lines(ref_sect):
     x = 0
     max_line = len(ref_sect)
     while x < max_line:
-        if not ref_sect[x].isspace():
+        if ref_sect[x].strip():
             # not an empty line:
             num_lines += 1
             x += 1  # Move past line
-            while x < len(ref_sect) and not ref_sect[x].isspace():
+            while x < len(ref_sect) and ref_sect[x].strip():
                 multi_nonblanks_found = 1
                 x += 1
             x -= 1
@@ -351,7 +351,7 @@ def test_for_blank_lines_separating_reference_lines(ref_sect):
             # empty line
             num_blanks += 1
             x += 1
-            while x < len(ref_sect) and ref_sect[x].isspace():
+            while x < len(ref_sect) and not ref_sect[x].strip():
                 x += 1
             if x == len(ref_sect):
                 # Blanks at end doc: dont count
-- 
2.43.0


From efb43e1233d393a8c924d4dff1959d840d023b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:47 +0000
Subject: [PATCH 44/62] fix: find the entries after a first one on the line of
 the title

---
 refextract/references/find.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/refextract/references/find.py b/refextract/references/find.py
index 29d2b3a..e721822 100644
--- a/refextract/references/find.py
+++ b/refextract/references/find.py
@@ -168,7 +168,9 @@ def find_numeration_in_title(docbody, title):
     mk_with_title_match = regex_match_list(first_line, mk_with_title_ptns)
     if mk_with_title_match:
         mk = mk_with_title_match.group("mark")
-        mk_ptn = mk_with_title_match.re.pattern
+        # the title is not repeated before the markers of the other lines
+        mk_ptns = get_reference_line_numeration_marker_patterns()
+        mk_ptn = mk_ptns[mk_with_title_ptns.index(mk_with_title_match.re)].pattern
         m_num = re_num.search(mk)
         if m_num and m_num.group(0) == "1":
             # Mark found
-- 
2.43.0


From 358e524c29ce224020e37bfaa0786c4d3bd63ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:45 +0000
Subject: [PATCH 45/62] fix: do not take the name of a PDF for an option of
 pdftotext

---
 refextract/documents/pdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/documents/pdf.py b/refextract/documents/pdf.py
index e3a8aab..610b1f2 100644
--- a/refextract/documents/pdf.py
+++ b/refextract/documents/pdf.py
@@ -70,7 +70,8 @@ def convert_PDF_to_plaintext(fpath, keep_layout=False):
         "-q",
         "-enc",
         "UTF-8",
-        fpath,
+        # absolute, so that a name with a leading dash is not an option
+        os.path.abspath(fpath),
         "-",
     ]
 
-- 
2.43.0


From de5614b2c48e9d833d18bef026354f01bea0ceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:47 +0000
Subject: [PATCH 46/62] fix: read the keys in the destinations dictionary of a
 PDF

---
 refextract/references/regexs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 50f7c53..725f1c3 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -317,7 +317,8 @@ re_kb_line = re.compile(
 )
 
 # Pattern to recognise references in PDF named destinations
-re_reference_in_dest = re.compile(r"^cite\.(.*)$", re.UNICODE)
+# names in the destinations dictionary of a PDF (not in its name tree) start with a slash
+re_reference_in_dest = re.compile(r"^/?cite\.(.*)$", re.UNICODE)
 
 # precompile some often-used regexp for speed reasons:
 re_regexp_character_class = re.compile(r"\[[^\]]+\]", re.UNICODE)
-- 
2.43.0


From 4cca0b0920eab9c010aa8ced6276887b435f9731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:47 +0000
Subject: [PATCH 47/62] fix: find the URLs of the last reference in the next
 column

---
 refextract/references/pdf.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/refextract/references/pdf.py b/refextract/references/pdf.py
index f3410b4..e74b5fa 100644
--- a/refextract/references/pdf.py
+++ b/refextract/references/pdf.py
@@ -123,15 +123,18 @@ def _match_urls_with_reference(
         page_number, column, y, _ = position
         return (page_number, column, y) if two_column_layout else (page_number, y)
 
-    ref_page_number, ref_column, ref_y, _ = reference[1]
+    ref_page_number, _, ref_y, _ = reference[1]
     urls_for_reference = set()
     for url_index, url in enumerate(urls_to_match):
-        url_page_number, url_col, url_y, _ = url[1]
+        url_page_number, _, url_y, _ = url[1]
         if not next_reference:
-            if (
-                (ref_page_number == url_page_number and url_col >= ref_column)
-                or ref_page_number + 1 == url_page_number
-            ) and ref_y <= url_y:
+            if ref_page_number == url_page_number:
+                is_in_reference = reading_order(url[1]) >= reading_order(reference[1])
+            else:
+                is_in_reference = (
+                    ref_page_number + 1 == url_page_number and ref_y <= url_y
+                )
+            if is_in_reference:
                 urls_for_reference.add(url[0])
             continue
         if reading_order(url[1]) >= reading_order(next_reference[1]):
-- 
2.43.0


From e20fbcd83ab03d6ffa9a3a367c0f68b462513e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:47 +0000
Subject: [PATCH 48/62] fix: do not include the padding of a line of a KB in
 its terms

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 725f1c3..9adcc31 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -313,7 +313,7 @@ re_isbn = re.compile(
 
 # Pattern to recognise a correct knowledge base line:
 re_kb_line = re.compile(
-    r"^\s*(?P<seek>[^\s].*)\s*---\s*(?P<repl>[^\s].*)\s*$", re.UNICODE
+    r"^\s*(?P<seek>\S(?:.*\S)?)\s*---\s*(?P<repl>\S(?:.*\S)?)\s*$", re.UNICODE
 )
 
 # Pattern to recognise references in PDF named destinations
-- 
2.43.0


From 2e59ebdc06aa82a9f195c492c3d0ae8fe30a96eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:47 +0000
Subject: [PATCH 49/62] fix: find journal titles whose phrase in the KB has
 dots and spaces

---
 refextract/references/kbs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index f5a8185..e743f47 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -535,8 +535,9 @@ def build_journals_kb(knowledgebase):
     repl_terms = {}
     for seek_phrase, repl in knowledgebase:
         # We match on a simplified line, thus dots are replaced
-        # with spaces
+        # with spaces, and there are no multiple spaces
         seek_phrase = seek_phrase.replace(".", " ").upper()
+        seek_phrase = re_group_captured_multiple_space.sub(" ", seek_phrase).strip()
 
         # good KB line
         # Add the 'replacement term' into the dictionary of
-- 
2.43.0


From 9afa55aeb10ec5120040fd8868518a647e76a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:47 +0000
Subject: [PATCH 50/62] fix: keep all the phrases of a KB for the same
 collaboration

---
 refextract/references/kbs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index e743f47..a8d1420 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -577,13 +577,14 @@ def build_journals_kb(knowledgebase):
 
 def build_collaborations_kb(knowledgebase):
     kb = {}
-    for pattern, collab in knowledgebase:
+    for seek_phrase, _collab in knowledgebase:
         prefix = r"(?:^|[\(\"\[\s]|(?<=\W))\s*(?:(?:the|and)\s+)?"
         collaboration_pattern = r"(?:\s*coll(?:aborations?|\.)?)?"
         suffix = r"(?=$|[><\]\)\"\s.,:;])"
-        pattern = pattern.replace(" ", r"\s")
+        pattern = seek_phrase.replace(" ", r"\s")
         pattern = pattern.replace("Collaboration", collaboration_pattern)
         re_pattern = "%s(%s)%s" % (prefix, pattern, suffix)
-        kb[collab] = re.compile(re_pattern, re.I | re.U)
+        # a collaboration can have several seek phrases
+        kb[seek_phrase] = re.compile(re_pattern, re.I | re.U)
 
     return kb
-- 
2.43.0


From eb19687b1422ffd08baead1c1ee4e1b11c1bb2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 51/62] fix: keep the closing bracket after an editor notation

---
 refextract/references/tag.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index e979bd5..3c68fbb 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1025,8 +1025,12 @@ def identify_and_tag_authors(line, authors_kb):
             )
             # Strip
             tmp_output_line = tmp_output_line.lstrip(".").strip(",:;- [](")
-            if not tmp_output_line.endswith("(ed.)"):
-                tmp_output_line = tmp_output_line.strip(")")
+            tmp_output_line = tmp_output_line.lstrip(")")
+            # keep the closing bracket of e.g. (Ed.)
+            while tmp_output_line.endswith(")") and tmp_output_line.count(
+                ")"
+            ) > tmp_output_line.count("("):
+                tmp_output_line = tmp_output_line[:-1]
 
             # ONLY wrap author data with tags IF there is no evidence that it is an
             # ed. author. (i.e. The author is not referred to as an editor)
-- 
2.43.0


From c34e033683446cb39d7d6cd2d3694e73a5fade75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:25 +0000
Subject: [PATCH 52/62] fix: do not find a publisher within the name of another

---
 refextract/references/tag.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 3c68fbb..4fa0b6f 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1344,8 +1344,19 @@ def identify_publishers(line, kb_publishers):
 
     for abbrev, info in kb_publishers.items():
         for match in info["pattern"].finditer(line):
-            # record the matched non-standard version of the publisher:
-            matches_repl[match.start(0)] = abbrev
+            # record the matched non-standard version of the publisher,
+            # the longest one if there are several:
+            if len(abbrev) > len(matches_repl.get(match.start(0), "")):
+                matches_repl[match.start(0)] = abbrev
+
+    # do not match a publisher within another one, e.g. Academic in
+    # Kluwer Academic
+    end = 0
+    for start in sorted(matches_repl):
+        if start < end:
+            del matches_repl[start]
+        else:
+            end = start + len(matches_repl[start])
 
     return matches_repl
 
-- 
2.43.0


From d2ffb35353fe3eea129f8b2c1016d66b42815b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:08 +0000
Subject: [PATCH 53/62] fix: find a journal title after an arXiv number and a
 space

---
 refextract/references/regexs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 9adcc31..8457013 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -93,7 +93,7 @@ re_arxiv = re.compile(
     r"""
     ARXIV[\s:-]*(?P<year>\d{2})-?(?P<month>\d{2})
     [\s.-]*(?P<num>\d{4})(?!\d)(?:[\s-]*V(?P<version>\d{1,3}))?
-    \s*(?P<suffix>\[[A-Z.-]+\])? """,
+    (?:\s*(?P<suffix>\[[A-Z.-]+\]))? """,
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
 )
 
@@ -101,7 +101,7 @@ re_arxiv_5digits = re.compile(
     r"""
     ARXIV[\s:-]*(?P<year>(1[3-9]|[2-8][0-9]))-?(?P<month>(0[1-9]|1[0-2]))
     [\s.-]*(?P<num>\d{5})(?!\d)(?:[\s-]*V(?P<version>\d{1,3}))?
-    \s*(?P<suffix>\[[A-Z.-]+\])? """,
+    (?:\s*(?P<suffix>\[[A-Z.-]+\]))? """,
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
 )
 
@@ -283,7 +283,7 @@ re_new_arxiv = re.compile(
     (?P<year>%(arxiv_years)s)
     (?P<month>(0[1-9]|1[0-2]))
     \.(?P<num>\d{4})(?:[\s-]*V(?P<version>\d{1,3}))?(?!\d)
-    \s*(?P<suffix>\[[A-Z.-]+\])? """
+    (?:\s*(?P<suffix>\[[A-Z.-]+\]))? """
     % {"arxiv_years": arxiv_years},
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
 )
@@ -294,7 +294,7 @@ re_new_arxiv_5digits = re.compile(
     (?P<year>%(arxiv_years)s)
     (?P<month>(0[1-9]|1[0-2]))
     \.(?P<num>\d{5})(?:[\s-]*V(?P<version>\d{1,3}))?(?!\d)
-    \s*(?P<suffix>\[[A-Z.-]+\])? """
+    (?:\s*(?P<suffix>\[[A-Z.-]+\]))? """
     % {"arxiv_years": arxiv_years_5digits},
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
 )
-- 
2.43.0


From b6cab356a5ed1c505c5884b67b96f70ce379305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:28 +0000
Subject: [PATCH 54/62] fix: do not join the words around a year in brackets

---
 refextract/references/regexs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 8457013..1a2a9c4 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -1108,6 +1108,8 @@ re_year_in_misc_txt = re.compile(r"(?:^|(?<!\d))(?:19|20)\d{2}(?:(?!\d)|$)")
 
 def remove_year(s, year=None):
     year_pattern = re.escape(year) if year else "(?:19|20)\\d{2}"
+    # do not join the words around brackets
+    s = re.sub(r"(?<=\w)(?=[\[(]\s*%s\s*[\])]\w)" % year_pattern, " ", s)
     s = re.sub(r"\[\s*%s\s*\]" % year_pattern, "", s)
     s = re.sub(r"\(\s*%s\s*\)" % year_pattern, "", s)
     # not a part of a longer word, and without joining the words around it
-- 
2.43.0


From 4f4fe6d28444381b9799b032f596f9de77ccd197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:45 +0000
Subject: [PATCH 55/62] fix: split a text with several semicolons at each of
 them

---
 refextract/references/engine.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index e2ec09d..4986f3a 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -324,6 +324,21 @@ def postpone_last_auth(current_citation, num_auth, split_reason):
             return dict(el, misc_txt="")
 
 
+def split_misc_iter(citation_elements):
+    """Generator giving texts with several semicolons in several elements."""
+    for el in citation_elements:
+        before, *between = el["misc_txt"].split(";")
+        if len(between) > 1:
+            *between, after = between
+            between = [text for text in between if text.strip("., [](){}")]
+            if between:
+                for text in between:
+                    yield {"type": "MISC", "misc_txt": before + ";" + text}
+                    before = ""
+            el["misc_txt"] = before + ";" + after
+        yield el
+
+
 def split_citations_iter(citation_elements):
     """Generator splitting a citation line into multiple citations.
 
@@ -339,7 +354,7 @@ def split_citations_iter(citation_elements):
     postponed_auth = None
     prev_split_reason = None
 
-    for el in citation_elements:
+    for el in split_misc_iter(citation_elements):
         if el["type"] == "MISC":
             # a semicolon at the end of the line does not start a new citation
             before, semicolon, after = el["misc_txt"].partition(";")
-- 
2.43.0


From c24b06275f3bf44822156efe9c856e5540c0e528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:13 +0000
Subject: [PATCH 56/62] fix: keep the pages of a numeration without journal
 title

Format its volume and pages like those of the other citations as well.
---
 refextract/references/engine.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 4986f3a..009fd0a 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -511,13 +511,16 @@ def look_for_implied_ibids(splitted_citations):
                             volume = numeration["series"] + numeration["volume"]
                         else:
                             volume = numeration["volume"]
+                        page = numeration["page"] or numeration["jinst_page"]
+                        if numeration["page_end"]:
+                            page += "-" + numeration["page_end"]
                         ibid_el = {
                             "type": "JOURNAL",
                             "misc_txt": "",
                             "title": current_journal["title"],
                             "volume": volume,
                             "year": numeration["year"],
-                            "page": numeration["page"] or numeration["jinst_page"],
+                            "page": page,
                             "page_end": numeration["page_end"],
                             "is_ibid": True,
                             "extra_ibids": [],
@@ -698,6 +701,10 @@ def parse_reference_line(ref_line, kbs, bad_titles_count=None, linker_callback=N
 
     # Look for implied ibids
     look_for_implied_ibids(splitted_citations)
+    for citation in splitted_citations:
+        # The ibids have to be formatted like the other journals
+        format_volume(citation)
+        handle_special_journals(citation, kbs)
     # Find year
     add_year_elements(splitted_citations)
     # Look for books in misc field
-- 
2.43.0


From 8fe656de0e03eed4875ac078795f3e9c058907e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:39 +0000
Subject: [PATCH 57/62] fix: look for the books of all the papers in a line

Only the first title of a line was looked for, and a book next to another
title did not start a new citation.
---
 refextract/references/engine.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 009fd0a..cbe3d15 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -222,24 +222,19 @@ def look_for_books(citation_elements, kbs):
     Create book tags by using the authors and the title to find books
     in our knowledge base
     """
-    title = None
-    for el in citation_elements:
-        if el["type"] == "QUOTED":
-            title = el
-            break
-
-    if title:
+    for index, title in enumerate(citation_elements):
+        if title["type"] != "QUOTED":
+            continue
         normalized_title = title["title"].upper()
         if normalized_title in kbs["books"]:
             line = kbs["books"][normalized_title]
-            el = {
+            citation_elements[index] = {
                 "type": "BOOK",
                 "misc_txt": title["misc_txt"],
                 "authors": line[0],
                 "title": line[1],
                 "year": line[2].strip(";"),
             }
-            citation_elements[citation_elements.index(title)] = el
 
     return citation_elements
 
@@ -299,9 +294,16 @@ def associate_recids(citation_elements, linker_callback):
     return citation_elements
 
 
+def type_for_splitting(el):
+    if el.get("is_arxiv"):
+        return "ARXIV"
+    # a book is a title which is in the KB
+    return "QUOTED" if el["type"] == "BOOK" else el["type"]
+
+
 def split_needed(next_el, current_types, last_type):
     repeatable_if_adjacent = {"REPORTNUMBER", "COLLABORATION"}
-    next_type = "ARXIV" if next_el.get("is_arxiv") else next_el["type"]
+    next_type = type_for_splitting(next_el)
 
     if ";" in next_el["misc_txt"]:
         return "semicolon"
@@ -390,7 +392,7 @@ def split_citations_iter(citation_elements):
             # detection of authors has many false positives, don't take them
             # into account for splitting
             continue
-        last_type = "ARXIV" if el.get("is_arxiv") else el["type"]
+        last_type = type_for_splitting(el)
         current_types.add(last_type)
 
     if postponed_auth and (num_auth == 0 or prev_split_reason == "repeated field"):
-- 
2.43.0


From 1375b9448ddee04d77de5365f3a63be3b028b47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:15 +0000
Subject: [PATCH 58/62] fix: end the references where the closing words or the
 scales of a figure begin

Keywords that follow a reference section were looked for but the match was
ignored. The first row of numbers of a figure was kept as a reference line,
and rows separated by blank lines were not recognised.
---
 refextract/references/find.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/refextract/references/find.py b/refextract/references/find.py
index e721822..182e224 100644
--- a/refextract/references/find.py
+++ b/refextract/references/find.py
@@ -415,7 +415,7 @@ def find_end_of_reference_section(
             # didn't match a section title - try looking for keywords that
             # suggest the end of a reference section:
             end_match = regex_match_list(docbody[x].strip(), kw_patterns)
-        else:
+        if end_match:
             # Is it really the end of the reference section? Check within the next
             # 5 lines for other reference numeration markers:
             y = x + 1
@@ -458,7 +458,8 @@ def find_end_of_reference_section(
                 y = x + 1
                 digit_lines = 4
                 num_digit_lines = 1
-                while y < x + digit_lines and y < len(docbody):
+                num_blank_lines = 0
+                while y < x + digit_lines + num_blank_lines and y < len(docbody):
                     digit_test_str = (
                         docbody[y]
                         .replace(" ", "")
@@ -474,10 +475,11 @@ def find_end_of_reference_section(
                     elif len(digit_test_str) == 0:
                         # This is a blank line. Don't count it, to accommodate
                         # documents that are double-line spaced:
-                        digit_lines += 1
+                        num_blank_lines += 1
                     y = y + 1
                 if num_digit_lines == digit_lines:
                     section_ended = True
+        if not section_ended:
             x += 1
     return x - 1
 
-- 
2.43.0


From 154b1ffb4c1494a74120192b6a4cd6d7bf7ec35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:07 +0000
Subject: [PATCH 59/62] fix: do not cut a link at a fragment, plus, at sign or
 colon

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 1a2a9c4..c85accc 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -351,7 +351,7 @@ re_extract_char_class = (re.compile(r" \[([^\]]+) \]", re.UNICODE), r"( [\g<1>])
 # URL recognition:
 raw_url_pattern = r"""
         (https?|s?ftp)://(?:[\w\d_.-])+(?::\d{1,5})?
-        (?:/[\w\d_.?=&%~∼-]+)*/?
+        (?:/(?:[\w\d_.?=&%~∼+\#@-]|:(?=\w))+)*/?
 """
 # Stand-alone URL (e.g. http://invenio-software.org/ )
 re_raw_url = re.compile(
-- 
2.43.0


From cc18cb0c016a314f2331bc5686e21e7830ff7777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:30 +0000
Subject: [PATCH 60/62] fix: find the title of the references when white space
 follows its punctuation

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index c85accc..6bd29ae 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -893,7 +893,7 @@ def get_reference_section_title_patterns():
     sect_marker1 = r"^(\d){1,3}\s*(?P<title>"
     line_end = (
         r"(\s*s\s*e\s*c\s*t\s*i\s*o\s*n\s*)?)\.?([\)\}\]])?"
-        r"($|\s*[\[\{\(\<]\s*[1a-z]\s*[\}\)\>\]]|\:$)"
+        r"(\s*$|\s*[\[\{\(\<]\s*[1a-z]\s*[\}\)\>\]]|\:\s*$)"
     )
 
     for t in titles:
-- 
2.43.0


From 062c6d4fe5eceff51e74b42a0d8320d0fc84cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:05 +0000
Subject: [PATCH 61/62] fix: keep a lower-case series letter printed after the
 volume

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 6bd29ae..b44615b 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -469,7 +469,7 @@ re_ibid = re.compile(r"(-|\b)?IBID(EM)?\.?", re.UNICODE)
 
 re_series_from_numeration = re.compile(r"^([A-Za-z])\s*[,\s:-]?\s*\d+", re.UNICODE)
 re_series_from_numeration_after_volume = re.compile(
-    r"^\d+\s*[,\s:-]?\s*([A-Z])", re.UNICODE
+    r"^\d+\s*[,\s:-]?\s*([A-Za-z])", re.UNICODE
 )
 
 # Obtain the series character from the standardised title text
-- 
2.43.0


From 5b8d0ebe95be08ea3fb071c6caba4cd8a77d4c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:12 +0000
Subject: [PATCH 62/62] fix: remove the running title of the references
 whatever white space follows it

The title is matched together with the white space (or line end) behind it,
so a running title with other white space behind it stayed in the reference
it interrupts.
---
 refextract/references/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/text.py b/refextract/references/text.py
index f2314c4..df102bc 100644
--- a/refextract/references/text.py
+++ b/refextract/references/text.py
@@ -159,7 +159,7 @@ def match_pagination(ref_line):
 
 def strip_footer(ref_lines, section_title):
     """Remove footer title from references lines"""
-    pattern = r"\(?\[?\d{0,4}\]?\)?\.?\s*%s\s*$" % re.escape(section_title)
+    pattern = r"\(?\[?\d{0,4}\]?\)?\.?\s*%s\s*$" % re.escape(section_title.strip())
     re_footer = re.compile(pattern, re.UNICODE)
     return [line for line in ref_lines if not re_footer.match(line)]
 
-- 
2.43.0

