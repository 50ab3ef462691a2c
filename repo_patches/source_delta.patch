From 602109d3ac146fa3a827d1b31299c6e8e664b1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 01/78] fix: xstr.dump writes length in UTF-16 units and no BOM

---
 rxls/biff_recs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rxls/biff_recs.py b/rxls/biff_recs.py
index defd16f..02c60d4 100644
--- a/rxls/biff_recs.py
+++ b/rxls/biff_recs.py
@@ -44,8 +44,10 @@ class xstr:
         if self.s is None:
             io.write(b"\xff\xff\xff\xff")
         elif self.s:
-            io.write(u4_p(len(self.s)))
-            io.write(self.s.encode("utf-16"))
+            # NOTE: length is in UTF-16 code units, and there is no BOM in the data
+            data = self.s.encode("utf-16-le")
+            io.write(u4_p(len(data) // 2))
+            io.write(data)
         else:
             io.write(b"\x00\x00\x00\x00")
 
-- 
2.43.0


From cdfcf48849a4e1e5f23661724a88fca1d77f387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 02/78] fix: decode BIFF12 strings as UTF-16LE, so a leading
 U+FEFF/U+FFFE is data, not a BOM

---
 rxls/biff_recs.py   | 4 ++--
 rxls/reader/xlsb.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rxls/biff_recs.py b/rxls/biff_recs.py
index 02c60d4..56827f8 100644
--- a/rxls/biff_recs.py
+++ b/rxls/biff_recs.py
@@ -38,7 +38,7 @@ class xstr:
         (sz,) = u4_u(io.read(4))
         if sz == 0xFFFFFFFF:
             return xstr(None)
-        return xstr(io.read(sz * 2).decode("utf-16"))
+        return xstr(io.read(sz * 2).decode("utf-16-le"))
 
     def dump(self, io: IO[bytes]) -> int:
         if self.s is None:
@@ -58,7 +58,7 @@ class xstr:
         (sz,) = u4_u(b[:4])
         if sz == 0xFFFFFFFF:
             return xstr(None)
-        return xstr(b[4 : 4 + sz * 2].decode("utf-16"))
+        return xstr(b[4 : 4 + sz * 2].decode("utf-16-le"))
 
     @staticmethod
     def from_string(s: str) -> xstr:
diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 0a51fe1..e59dbdd 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -131,7 +131,7 @@ class XlsbWorkbook:  # noqa: D101
             return pa.array(
                 (self.null_shared.add(u4_p(i)) or y)
                 if self.null_values(
-                    y := r.data[5 : 5 + u4_u(r.data[1:5])[0] * 2].decode("utf-16"),
+                    y := r.data[5 : 5 + u4_u(r.data[1:5])[0] * 2].decode("utf-16-le"),
                 )
                 else y
                 for i, r in enumerate(scan_biff(io, {19}))
@@ -158,7 +158,7 @@ class XlsbWorkbook:  # noqa: D101
             io.seek(0)
             # ! [1]: Get full formats list from custom BrtFmt records (only 1-st format from every record)
             fms = {
-                r.data[:2]: r.data[2:].decode("utf-16").split(";", 1)[0]
+                r.data[:2]: r.data[2:].decode("utf-16-le").split(";", 1)[0]
                 for r in scan_biff(io, {44})
             }
 
@@ -259,7 +259,7 @@ class XlsbWorkbook:  # noqa: D101
                 if r.rec_id in {6, 8}:
                     # NOTE: The slowest case, due to utf-16 encoding.
                     cell_data = r.data[12 : u4_u(r.data[8:12])[0] * 2 + 12].decode(
-                        "utf-16",
+                        "utf-16-le",
                     )
                     if self.null_values(cell_data):
                         continue
-- 
2.43.0


From 8cbc35e3bd8a3196a6149bb449f81f807dc15426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 03/78] fix: escape attribute values in Relationship.dump_xml

---
 rxls/rels.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rxls/rels.py b/rxls/rels.py
index 16c5367..6de8aae 100644
--- a/rxls/rels.py
+++ b/rxls/rels.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 __all__ = ["Relationship"]
 
 from typing import IO
+from xml.sax.saxutils import quoteattr
 
 from pyexpat import ParserCreate
 
@@ -42,5 +43,9 @@ class Relationship:
 
     def dump_xml(self, io: IO[bytes]) -> None:
         io.write(
-            f'<Relationship Id="{self.Id}" Type="{RELS_NS}/{self.Type}" Target="{self.Target}"/>'.encode(),
+            (
+                f"<Relationship Id={quoteattr(self.Id)}"
+                f" Type={quoteattr(f'{RELS_NS}/{self.Type}')}"
+                f" Target={quoteattr(self.Target)}/>"
+            ).encode(),
         )
-- 
2.43.0


From 92133dd23dabfd954786a0cbecb9af5a6948311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 04/78] fix: xlsb compares error strings as text, as cells are
 already decoded

---
 rxls/reader/xlsb.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index e59dbdd..35fbc4b 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -35,8 +35,7 @@ re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
 re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
 
 ERROR_STRINGS = frozenset(
-    x.encode("utf-16")
-    for x in (
+    (
         "#NULL!",
         "#DIV/0!",
         "#VALUE!",
-- 
2.43.0


From f3759978c95e4f3c82df8448d349b1be78335eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 05/78] fix: xlsb number format code excludes its length prefix

---
 rxls/reader/xlsb.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 35fbc4b..c7091f8 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -156,18 +156,15 @@ class XlsbWorkbook:  # noqa: D101
             }
             io.seek(0)
             # ! [1]: Get full formats list from custom BrtFmt records (only 1-st format from every record)
+            # NOTE: 2 bytes of format ID, 4 bytes of length, then format code itself
             fms = {
-                r.data[:2]: r.data[2:].decode("utf-16-le").split(";", 1)[0]
+                r.data[:2]: r.data[6:].decode("utf-16-le").split(";", 1)[0]
                 for r in scan_biff(io, {44})
             }
 
             # ! [2]: Check, for each format, that it is temporal. Add XF IDs of BrtXFs using it to result.
             for f_id, fmt in fms.items():
                 xf_ids = [x for x, y in xfs.items() if y == f_id]
-                if fmt == "0":
-                    ret.update(dict.fromkeys(xf_ids, 0x10))
-
-                    continue
                 if re_dt.search(re_xt.sub("", fmt)):
                     ret.update(xf_ids)
 
-- 
2.43.0


From 553ff14cb630e5b5f9285bdfdd7cfd8a5d6f9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 06/78] fix: xlsb builtin temporal formats are matched by whole
 format id

---
 rxls/reader/xlsb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index c7091f8..c29a983 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -169,7 +169,11 @@ class XlsbWorkbook:  # noqa: D101
                     ret.update(xf_ids)
 
             # ! [3]: Add to result each BrtXF, where FmtId in date/time/duration builtin formats
-            ret.update((x for x, y in xfs.items() if y[0] in TEMPORAL_STYLES))
+            ret.update(
+                x
+                for x, y in xfs.items()
+                if int.from_bytes(y, "little") in TEMPORAL_STYLES
+            )
 
             return frozenset(ret)  # type: ignore
 
-- 
2.43.0


From be6423664e80c942dbdfaa092835bab65acd8239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 07/78] fix: skip_rows without take_rows does not limit the
 rows read

---
 rxls/reader/xlsb.py | 3 ++-
 rxls/reader/xlsx.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index c29a983..8be1a8f 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -209,7 +209,8 @@ class XlsbWorkbook:  # noqa: D101
         if not isinstance(take_rows, int) or take_rows < 0:
             raise ValueError("Argument `take_rows` must be a positive integer")
 
-        take_rows += skip_rows
+        if take_rows:
+            take_rows += skip_rows
         row = -1
         is_empty_row = False
 
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 39d1a8f..14c687d 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -284,7 +284,8 @@ class XlsxWorkbook:  # noqa: D101
         if not isinstance(take_rows, int) or take_rows < 0:
             raise ValueError("Argument `take_rows` must be a positive integer")
 
-        take_rows += skip_rows
+        if take_rows:
+            take_rows += skip_rows
 
         def worker(
             io: IO[bytes],
-- 
2.43.0


From 27072a70d81492582719cac5b29ad695260d29df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 08/78] fix: skip_rows counts the skipped rows when empty rows
 are dropped

---
 rxls/reader/xlsb.py | 3 ++-
 rxls/reader/xlsx.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 8be1a8f..8658a3f 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -228,7 +228,8 @@ class XlsbWorkbook:  # noqa: D101
             # * 402: BrtEndSheetData
             for r in scan_biff(io, {0, 2, 4, 5, 6, 7, 8, 9, 10, 402}):
                 if not r.rec_id:
-                    if not is_empty_row or take_rows_non_empty:
+                    # ? Skipped rows are always counted
+                    if not is_empty_row or take_rows_non_empty or row < skip_rows:
                         row += 1
                     # ? If upcoming row number is greater than take_rows, stop iteration
                     if 0 < take_rows < row:
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 14c687d..1d3cd46 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -398,7 +398,8 @@ class XlsxWorkbook:  # noqa: D101
                 if tag == "row":
                     # ? Row number for cells increases here only.
                     # * If row was empty and take_non_empty, do not increase row number
-                    if not is_empty_row or take_non_empty:
+                    # * Skipped rows are always counted
+                    if not is_empty_row or take_non_empty or row < skip_rows:
                         row += 1
 
                     if callback is not None:
-- 
2.43.0


From 6b9f8131aa8048d4d8abfc28e3d18b43f823ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 09/78] fix: xlsx empty rows do not change the rows limit

---
 rxls/reader/xlsx.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 1d3cd46..b04eb53 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -386,7 +386,7 @@ class XlsxWorkbook:  # noqa: D101
                         is_empty_row = False
 
             def cell_eh(tag: str) -> None:
-                nonlocal tags, row, is_empty_row, callback, c_typ, c_row, take_rows, l_tag
+                nonlocal tags, row, is_empty_row, callback, c_typ, c_row, l_tag
 
                 # if tags:
                 #     last_opened = tags.pop()
@@ -405,12 +405,6 @@ class XlsxWorkbook:  # noqa: D101
                     if callback is not None:
                         callback()
 
-                    if is_empty_row:
-                        take_rows += take_non_empty
-
-                    # ? If entire row is empty, just increase max row count
-                    if take_non_empty:
-                        take_rows += is_empty_row
                     # ? Simple way to break in generator, that works in background thread
                     if 0 < take_rows < row:
                         raise GeneratorExit
-- 
2.43.0


From aed2fbec9a0745d8027478d892bbf466802c0443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 10/78] fix: xlsx drops every empty row by default, not only
 the leading ones

---
 rxls/reader/xlsx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index b04eb53..e83168c 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -401,6 +401,7 @@ class XlsxWorkbook:  # noqa: D101
                     # * Skipped rows are always counted
                     if not is_empty_row or take_non_empty or row < skip_rows:
                         row += 1
+                    is_empty_row = True
 
                     if callback is not None:
                         callback()
-- 
2.43.0


From 790f7e29c69ffd66f1f70ecc23d70b634c6004a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 11/78] fix: xlsx null values apply to shared strings text, not
 to their indices

---
 rxls/reader/xlsx.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index e83168c..d159b6c 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -323,7 +323,16 @@ class XlsxWorkbook:  # noqa: D101
                 callback()
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
-                nonlocal row, tags, l_col, c_typ, c_row, styles, l_tag, skip_rows
+                nonlocal \
+                    row, \
+                    tags, \
+                    l_col, \
+                    c_typ, \
+                    c_row, \
+                    styles, \
+                    l_tag, \
+                    skip_rows, \
+                    is_sharedstr
                 if not l_tag:
                     # ? If tags is empty, we are outside of sheet data.
                     if tag == "c" and row >= skip_rows:
@@ -331,7 +340,8 @@ class XlsxWorkbook:  # noqa: D101
                         l_col = attrs["r"]
 
                         # ? check, if value is shared string index:
-                        if attrs.get("t") == "s":
+                        is_sharedstr = attrs.get("t") == "s"
+                        if is_sharedstr:
                             c_typ = TYPE_STRING | REPR_SHARED
                         # ? check, if value has temporal or numeric representation
                         elif typ := styles.get(attrs.get("s", "0")):
@@ -433,6 +443,9 @@ class XlsxWorkbook:  # noqa: D101
             finally:
                 o_q.put(sentinel)
 
+        # NOTE: `null_shared` is filled by this scan, so it must be done before reading
+        _ = self.shared
+
         o_q: Queue[cell] = Queue()
         sentinel = object()
 
-- 
2.43.0


From 0a99440308aa3830d647981a109151993f9ab37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 12/78] fix: xlsb null shared strings are known before the
 first cell is read

---
 rxls/reader/xlsb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 8658a3f..a82ed0e 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -192,6 +192,8 @@ class XlsbWorkbook:  # noqa: D101
             raise RuntimeError(msg)
 
         _sheets = self.sheets
+        # NOTE: `null_shared` is filled by this scan, so it must be done before reading
+        _ = self.shared
 
         if isinstance(sheet, int):
             if not (0 <= sheet < len(_sheets)):
-- 
2.43.0


From 39eb38c0572e0955e4307abb4224e8bedfa50af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 13/78] fix: xlsx string formula results are strings whatever
 their style

---
 rxls/reader/xlsx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index d159b6c..7a2abb0 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -343,6 +343,9 @@ class XlsxWorkbook:  # noqa: D101
                         is_sharedstr = attrs.get("t") == "s"
                         if is_sharedstr:
                             c_typ = TYPE_STRING | REPR_SHARED
+                        # ? result of string formula is a string with any style
+                        elif attrs.get("t") == "str":
+                            c_typ = TYPE_STRING | REPR_PREPARED
                         # ? check, if value has temporal or numeric representation
                         elif typ := styles.get(attrs.get("s", "0")):
                             c_typ = typ
-- 
2.43.0


From 9ba175d888f7ba7e8e055166da4c2498139a6f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 14/78] fix: xlsx shared strings keep all of their runs and
 text of any length

---
 rxls/reader/xlsx.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 7a2abb0..3697dff 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -160,27 +160,37 @@ class XlsxWorkbook:  # noqa: D101
         ret: pyarrow.lib.StringBuilder = pyarrow.lib.StringBuilder()
 
         with self.zf.open("xl/sharedStrings.xml") as io:
-            must_be = False
+            # NOTE: text of one item may be split by runs and by parser buffer
+            parts: list[str] = []
+            is_text = False
+            is_phonetic = False
 
             def cell_sh(tag: str, _: dict[str, str]) -> None:
-                nonlocal must_be
+                nonlocal is_text, is_phonetic
                 if tag == "si":
-                    must_be = True
+                    parts.clear()
+                elif tag == "rPh":
+                    is_phonetic = True
+                elif tag == "t":
+                    is_text = not is_phonetic
 
             def cell_th(txt: str) -> None:
-                nonlocal must_be, ret
-                if must_be and (txt := txt.strip()):
-                    if self.null_values(txt):
-                        return
-                    ret.append(txt)
-                    must_be = False
+                if is_text:
+                    parts.append(txt)
 
             def cell_eh(tag: str) -> None:
-                nonlocal must_be
-                if tag == "si" and must_be:
-                    ret.append(None)  # type: ignore
-                    self.null_shared.add(str(len(ret) - 1))
-                    must_be = False
+                nonlocal is_text, is_phonetic
+                if tag == "t":
+                    is_text = False
+                elif tag == "rPh":
+                    is_phonetic = False
+                elif tag == "si":
+                    txt = "".join(parts).strip()
+                    if txt and not self.null_values(txt):
+                        ret.append(txt)
+                    else:
+                        ret.append(None)  # type: ignore
+                        self.null_shared.add(str(len(ret) - 1))
 
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
-- 
2.43.0


From d3cf365db6bc63b785412807567e3df992ef0c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 15/78] fix: xlsx reads inline strings and cell text of any
 length

---
 rxls/reader/xlsx.py | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 3697dff..b4aece6 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -327,6 +327,10 @@ class XlsxWorkbook:  # noqa: D101
 
             l_tag: str | None = None
 
+            # NOTE: text of one cell may be split by runs and by parser buffer
+            parts: list[str] = []
+            is_phonetic: bool = False
+
             # ? First row started event:
             row += 1
             if callback is not None:
@@ -342,7 +346,8 @@ class XlsxWorkbook:  # noqa: D101
                     styles, \
                     l_tag, \
                     skip_rows, \
-                    is_sharedstr
+                    is_sharedstr, \
+                    is_phonetic
                 if not l_tag:
                     # ? If tags is empty, we are outside of sheet data.
                     if tag == "c" and row >= skip_rows:
@@ -353,8 +358,8 @@ class XlsxWorkbook:  # noqa: D101
                         is_sharedstr = attrs.get("t") == "s"
                         if is_sharedstr:
                             c_typ = TYPE_STRING | REPR_SHARED
-                        # ? result of string formula is a string with any style
-                        elif attrs.get("t") == "str":
+                        # ? result of string formula (or inline string) is a string with any style
+                        elif attrs.get("t") in {"str", "inlineStr"}:
                             c_typ = TYPE_STRING | REPR_PREPARED
                         # ? check, if value has temporal or numeric representation
                         elif typ := styles.get(attrs.get("s", "0")):
@@ -363,20 +368,27 @@ class XlsxWorkbook:  # noqa: D101
                             c_typ = TYPE_STRING | REPR_PREPARED
 
                         c_row = row
+                        parts.clear()
                     else:
                         return
+                elif tag == "rPh":
+                    is_phonetic = True
                 # ? Add to tags only if it is already contains something.
                 # ? Also, add if it is empty and current tag == 'c'
                 l_tag = tag
                 # tags.append(l_tag := tag)
 
             def cell_th(txt: str) -> None:
+                # ? Inline strings are in `t`, all other values are in `v`
+                if l_tag == "v" or (l_tag == "t" and not is_phonetic):
+                    parts.append(txt)
+
+            def cell_ct() -> None:
                 nonlocal \
                     o_q, \
                     row, \
                     l_col, \
                     c_typ, \
-                    l_tag, \
                     is_empty_row, \
                     is_sharedstr, \
                     nullss, \
@@ -384,10 +396,7 @@ class XlsxWorkbook:  # noqa: D101
                     skip_rows, \
                     skip_cols
 
-                if skip_rows > row:
-                    return
-
-                if l_tag == "v" and (txt := txt.strip()):
+                if txt := "".join(parts).strip():
                     if is_sharedstr:
                         # ? Check, that shared string number is not in null-shared
                         if txt in nullss:
@@ -409,7 +418,15 @@ class XlsxWorkbook:  # noqa: D101
                         is_empty_row = False
 
             def cell_eh(tag: str) -> None:
-                nonlocal tags, row, is_empty_row, callback, c_typ, c_row, l_tag
+                nonlocal \
+                    tags, \
+                    row, \
+                    is_empty_row, \
+                    callback, \
+                    c_typ, \
+                    c_row, \
+                    l_tag, \
+                    is_phonetic
 
                 # if tags:
                 #     last_opened = tags.pop()
@@ -434,9 +451,17 @@ class XlsxWorkbook:  # noqa: D101
                         raise GeneratorExit
 
                 elif tag == "c":
+                    if l_tag:
+                        cell_ct()
                     c_typ = 0
                     l_tag = None
 
+                elif l_tag:
+                    # ? Text between the elements of cell is not a part of value
+                    l_tag = "c"
+                    if tag == "rPh":
+                        is_phonetic = False
+
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
             parser.EndElementHandler = cell_eh
-- 
2.43.0


From e2494881024f90f563d7f10b32e60fd1a289c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 16/78] fix: workbooks without optional shared strings or
 styles parts are readable

---
 rxls/reader/xlsb.py | 8 ++++++++
 rxls/reader/xlsx.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index a82ed0e..adf41fa 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -126,6 +126,10 @@ class XlsbWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        # NOTE: this part is optional
+        if "xl/sharedStrings.bin" not in self.zf.namelist():
+            return pa.array([], pa.large_string())
+
         with self.zf.open("xl/sharedStrings.bin") as io:
             return pa.array(
                 (self.null_shared.add(u4_p(i)) or y)
@@ -143,6 +147,10 @@ class XlsbWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        # NOTE: this part is optional
+        if "xl/styles.bin" not in self.zf.namelist():
+            return frozenset()
+
         with self.zf.open("xl/styles.bin") as io:
             ret: set[bytes] = set()
             # ! [0]: Get full styles list from styles.bin (3-bytes little-endian XF ID and 2-bytes little-endian FMT ID)
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index b4aece6..ade59c9 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -159,6 +159,10 @@ class XlsxWorkbook:  # noqa: D101
 
         ret: pyarrow.lib.StringBuilder = pyarrow.lib.StringBuilder()
 
+        # NOTE: this part is optional
+        if "xl/sharedStrings.xml" not in self.zf.namelist():
+            return pa.array([], pa.large_string())
+
         with self.zf.open("xl/sharedStrings.xml") as io:
             # NOTE: text of one item may be split by runs and by parser buffer
             parts: list[str] = []
@@ -216,6 +220,10 @@ class XlsxWorkbook:  # noqa: D101
 
         fms: dict[str, str] = {}
 
+        # NOTE: this part is optional
+        if "xl/styles.xml" not in self.zf.namelist():
+            return {}
+
         with self.zf.open("xl/styles.xml") as io:
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
-- 
2.43.0


From ab400564525541277c73f5947e8812b05817892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 17/78] fix: absolute relationship targets are resolved from
 the archive root

---
 rxls/reader/xlsb.py | 4 ++--
 rxls/reader/xlsx.py | 2 +-
 rxls/rels.py        | 6 ++++++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index adf41fa..46dd597 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -112,8 +112,8 @@ class XlsbWorkbook:  # noqa: D101
             for _sheet in scan_biff(io, {412}):
                 _sheet = BrtBundleSh.loadr(_sheet)
 
-                sheet_file = "xl/" + next(
-                    x.Target for x in wb_rels if x.Id == _sheet.strRelID.value
+                sheet_file = next(
+                    x.part_name() for x in wb_rels if x.Id == _sheet.strRelID.value
                 )
 
                 s_sheet_idx[_sheet.strName.value] = sheet_file
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index ade59c9..2482332 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -136,7 +136,7 @@ class XlsxWorkbook:  # noqa: D101
             wb_rels: list[Relationship] = Relationship.scan_xml(io)
             for rel in wb_rels:
                 if rel.Type == "worksheet":
-                    rId_to_file[rel.Id] = f"xl/{rel.Target}"
+                    rId_to_file[rel.Id] = rel.part_name()
 
         rId_to_name = {}  # noqa: N806
         with self.zf.open("xl/workbook.xml") as io:
diff --git a/rxls/rels.py b/rxls/rels.py
index 6de8aae..656b1fb 100644
--- a/rxls/rels.py
+++ b/rxls/rels.py
@@ -41,6 +41,12 @@ class Relationship:
 
         return ret
 
+    def part_name(self, base: str = "xl/") -> str:
+        """Name of the target part in the archive (absolute targets are relative to its root)."""
+        if self.Target.startswith("/"):
+            return self.Target[1:]
+        return base + self.Target
+
     def dump_xml(self, io: IO[bytes]) -> None:
         io.write(
             (
-- 
2.43.0


From ede2b98c8101ca9bf41be340bc01f21c7b25fdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 18/78] fix: sheets of other kinds do not break or shift
 worksheets

---
 rxls/reader/xlsb.py | 8 ++++----
 rxls/reader/xlsx.py | 5 ++++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 46dd597..8627fa9 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -112,11 +112,11 @@ class XlsbWorkbook:  # noqa: D101
             for _sheet in scan_biff(io, {412}):
                 _sheet = BrtBundleSh.loadr(_sheet)
 
-                sheet_file = next(
-                    x.part_name() for x in wb_rels if x.Id == _sheet.strRelID.value
-                )
+                rel = next(x for x in wb_rels if x.Id == _sheet.strRelID.value)
 
-                s_sheet_idx[_sheet.strName.value] = sheet_file
+                # NOTE: there may be sheets of other kinds (chartsheets, dialogsheets)
+                if rel.Type == "worksheet":
+                    s_sheet_idx[_sheet.strName.value] = rel.part_name()
         return s_sheet_idx
 
     @cached_property
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 2482332..d626975 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -149,7 +149,10 @@ class XlsxWorkbook:  # noqa: D101
             parser = ParserCreate()
             parser.StartElementHandler = st_handler
             parser.ParseFile(io)
-        return {rId_to_name[x]: rId_to_file[x] for x in rId_to_name}
+        # NOTE: there may be sheets of other kinds (chartsheets, dialogsheets)
+        return {
+            rId_to_name[x]: rId_to_file[x] for x in rId_to_name if x in rId_to_file
+        }
 
     @cached_property
     def shared(self) -> pa.LargeStringArray:
-- 
2.43.0


From a4d4d5c4a66993519018ef23801bd45a397f6dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 19/78] fix: xlsx errors in the parsing thread are raised to
 the caller instead of truncating the table

---
 rxls/reader/xlsx.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index d626975..8761cd3 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -481,14 +481,11 @@ class XlsxWorkbook:  # noqa: D101
 
             try:
                 parser.ParseFile(io)
-            except ValueError as e:
-                if e.args[0] != "read from closed file.":
-                    raise
-            except AttributeError as e:
-                if e.args[0] != "'NoneType' object has no attribute 'tell'":
-                    raise
             except GeneratorExit:
                 pass
+            except BaseException as e:  # noqa: BLE001
+                # NOTE: must be raised in the thread of consumer, not in this one.
+                errors.append(e)
             finally:
                 o_q.put(sentinel)
 
@@ -497,6 +494,7 @@ class XlsxWorkbook:  # noqa: D101
 
         o_q: Queue[cell] = Queue()
         sentinel = object()
+        errors: list[BaseException] = []
 
         with self.zf.open(sheet_path) as io:
             Thread(
@@ -517,3 +515,6 @@ class XlsxWorkbook:  # noqa: D101
             ).start()
 
             yield from iter(o_q.get, sentinel)
+
+            if errors:
+                raise errors[0]
-- 
2.43.0


From d314a8ce90a93664a3436e8e4578eb8a6a6a568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 20/78] fix: sheet part is closed when read fails in the middle
 of it

---
 rxls/reader/common.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index 8a3a5b3..aad25cc 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 __all__ = ["read"]
 
 import re
+from contextlib import closing
 from functools import reduce
 from typing import TYPE_CHECKING
 from zipfile import ZipFile
@@ -155,15 +156,17 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
 
     _columns = {}
 
-    with Reader(file, null_values=null_values) as _reader:
-        for _cell in _reader.iter_worksheet(
+    with Reader(file, null_values=null_values) as _reader, closing(
+        _reader.iter_worksheet(
             sheet,
             skip_rows=skip_rows,
             take_rows=take_rows,
             take_rows_non_empty=take_rows_non_empty,
             skip_cols=skip_cols,
             row_callback=row_callback,
-        ):
+        ),
+    ) as _cells:
+        for _cell in _cells:
             if _cell.col not in _columns:
                 _columns[_cell.col] = xl_series(
                     _reader.shared,
-- 
2.43.0


From 966b2d920172b7a37561489d1b92336f9cce5336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 21/78] fix: xlsb truncated or corrupted sheet data is an
 error, not a shorter table

---
 rxls/reader/xlsb.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 8627fa9..931bce4 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -251,16 +251,19 @@ class XlsbWorkbook:  # noqa: D101
                     is_empty_row = True
                     continue
 
-                # ? If upcoming row number is less than skip_rows, no data processing.
-                if skip_rows > row:
-                    continue
-
                 if r.rec_id == 402:
                     row += 1
                     if row_callback:
                         row_callback()
+                    # ? Archive verifies the checksum only when the part is read to the end
+                    while io.read(2**16):
+                        pass
                     break
 
+                # ? If upcoming row number is less than skip_rows, no data processing.
+                if skip_rows > row:
+                    continue
+
                 (col,) = u4_u(r.data[:4])
 
                 if skip_cols and col in skip_cols:
@@ -313,3 +316,6 @@ class XlsbWorkbook:  # noqa: D101
                     )
 
                 is_empty_row = False
+            else:
+                msg = "Incorrect xlsb file: unexpected end of sheet data"
+                raise ValueError(msg)
-- 
2.43.0


From a191aae3753c769615cb142eda4d80606804c134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 22/78] fix: length of series includes its leading nulls, so no
 row of ragged sheet is lost

---
 rxls/series.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/series.py b/rxls/series.py
index 55c1f88..2d213c1 100644
--- a/rxls/series.py
+++ b/rxls/series.py
@@ -70,7 +70,8 @@ class xl_series:  # noqa: N801
         self.__binary = binary
 
     def __len__(self) -> int:
-        return self.__e_row - self.__s_row + 1
+        # NOTE: leading nulls are also the part of series
+        return self.__e_row + 1
 
     def __pull_chunk(self) -> None:
         """Normalize chunk and add it to underlying list."""
-- 
2.43.0


From 388b7d2524eefa7b91ec7996bc1444a8e382e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 23/78] fix: take_over without length takes all the remaining
 chunks

---
 rxls/chunk/chunk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index d0f1841..ddc047e 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -407,7 +407,7 @@ class chunk:  # noqa: D101, N801
                 if _chunk.size:
                     result.append(_chunk)
 
-                if cum_len >= length:
+                if length and cum_len >= length:
                     break
 
         if length and cum_len < length:
-- 
2.43.0


From c09d5b08f20356b0a63521850f4d1347305007aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 24/78] fix: slice of null chunk is never longer than the slice
 of array

---
 rxls/chunk/chunk.py | 23 +----------------------
 1 file changed, 1 insertion(+), 22 deletions(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index ddc047e..e2d8b8f 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -51,28 +51,7 @@ T_MS = pa.timestamp("ms")
 
 
 def null_slice(x: int, index: slice) -> int:
-    if not x:
-        return 0
-
-    start = index.start or 0
-    if start < 0:
-        start = x + start
-
-    stop = index.stop or x
-    if stop < 0:
-        stop = x + stop
-
-    step = index.step or 1
-
-    if step < 0:
-        stop, start = start, stop
-        step = -step
-
-    if stop <= start:
-        return 0
-
-    itvl = stop - start
-    return itvl // step + bool(itvl % step)
+    return len(range(x)[index])
 
 
 @as_dataclass(mapping=True)
-- 
2.43.0


From 23821866a5120f7bdcc79f11f6ef91cdd6205248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 25/78] fix: sheet with nothing but a header is an empty table

---
 rxls/chunk/chunk.py   | 3 +++
 rxls/reader/common.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index e2d8b8f..10ea0ae 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -438,6 +438,9 @@ class chunk:  # noqa: D101, N801
         if offset or length or index is not None:
             chunks = chunk.take_over(chunks, offset, length, index)
 
+        if not chunks:
+            return pa.nulls(0, UTF8)
+
         temp_idx = []
         nums_idx = []
         utf8_idx = []
diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index aad25cc..d981812 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -241,7 +241,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
             raise ValueError(msg)
 
     g_offset = header_height + first_row + skip_rows_after_header
-    g_length = max_len - header_height - skip_rows_after_header
+    g_length = max(0, max_len - header_height - skip_rows_after_header)
 
     idx = None
     if filters:
-- 
2.43.0


From 19e58d87e518b0200e055057421b0ef8fec07c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 26/78] fix: shared strings are resolved before casting to
 temporal

---
 rxls/chunk/chunk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index 10ea0ae..d7b2781 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -224,7 +224,7 @@ class chunk:  # noqa: D101, N801
                 return chunk(self.data, TYPE_NUMERIC | REPR_TEMPORAL)
             return chunk(self.data, self.type | REPR_TEMPORAL)
         return chunk(
-            mf_strptime(self.data, formats),  # type: ignore
+            mf_strptime(self.prepare().data, formats),  # type: ignore
             TYPE_NUMERIC | REPR_TEMPORAL | REPR_PREPARED,
         )  # type: ignore
 
-- 
2.43.0


From 7aea5ba556a2471c40bf7ca6d725b5d7020b2419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 27/78] fix: unresolved conflict leaves original values, not
 partially converted ones

---
 rxls/chunk/chunk.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index d7b2781..cefe90a 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -441,6 +441,10 @@ class chunk:  # noqa: D101, N801
         if not chunks:
             return pa.nulls(0, UTF8)
 
+        # NOTE: neither given list nor original data should be changed by conversions
+        sources = chunks
+        chunks = list(chunks)
+
         temp_idx = []
         nums_idx = []
         utf8_idx = []
@@ -489,6 +493,7 @@ class chunk:  # noqa: D101, N801
                 utf8_fallback = True
 
         if utf8_fallback:
+            chunks = sources
             dtype = UTF8
         elif temp_idx:
             dtype = T_MS
-- 
2.43.0


From 455095fc5eeb6a1d64b2ed8e101ca11fb0acb98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 28/78] fix: repeated header names are returned deduplicated

---
 rxls/reader/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index d981812..977a3d0 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -66,7 +66,7 @@ def __make_header(
 
         result_hdrs.append(n)
 
-    return hdrs
+    return result_hdrs
 
 
 def __find_header(
-- 
2.43.0


From dfcbc0715249df15e487cfa7a3592333f7a7ab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 29/78] fix: requested dtypes are compared with their unit and
 timezone

---
 rxls/reader/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index 977a3d0..07b2ded 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -302,7 +302,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
     if dtypes is not None:  # noqa: PLR1702
         if isinstance(dtypes, pa.DataType):
             for i in range(len(arrays)):
-                if arrays[i].type.id != dtypes.id:  # type: ignore
+                if arrays[i].type != dtypes:  # type: ignore
                     try:
                         arrays[i] = arrays[i].cast(dtypes)
                     except Exception:  # noqa: BLE001
@@ -314,7 +314,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
             for i, col in enumerate(header):
                 if col in dtypes:
                     dtype = dtypes[col]
-                    if arrays[i].type.id != dtype.id:
+                    if arrays[i].type != dtype:
                         try:
                             arrays[i] = arrays[i].cast(dtype)
                         except Exception:  # noqa: BLE001
@@ -330,7 +330,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
                 )
 
             for i, dtype in enumerate(dtypes):
-                if arrays[i].type.id != dtype.id:
+                if arrays[i].type != dtype:
                     try:
                         arrays[i] = arrays[i].cast(dtype)
                     except Exception:  # noqa: BLE001
-- 
2.43.0


From 0c5e3c97e73d19827e3142e8f1c0823de8162d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 30/78] fix: converted chunks keep their size and their nulls

---
 rxls/chunk/chunk.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index cefe90a..5c21b9b 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -19,7 +19,6 @@ from ..constants import (
 from ..core import as_dataclass
 from .arrow import take, unsafe_cast
 from .casts import (
-    _unsafe_array,
     _unsafe_arrow,
     _unsafe_data_to_array,
     _unsafe_data_to_arrow,
@@ -210,9 +209,11 @@ class chunk:  # noqa: D101, N801
         """Cast chunk to numeric"""
         if not self.type or self.type & TYPE_NUMERIC:
             return self
+        # NOTE: there may be nulls (or offset), so only the last buffer is not enough
         return chunk(
-            _unsafe_array(self.arrow(dest_dtype=F__8), np.float64),
+            self.arrow(dest_dtype=F__8).to_numpy(zero_copy_only=False),  # type: ignore
             TYPE_NUMERIC | REPR_PREPARED,
+            self.size,
         )
 
     def as_temporal(self, formats: tuple[str, ...] | None = None) -> chunk:
@@ -221,11 +222,12 @@ class chunk:  # noqa: D101, N801
             if self.type & REPR_TEMPORAL:
                 return self
             if self.type & REPR_PREPARED:
-                return chunk(self.data, TYPE_NUMERIC | REPR_TEMPORAL)
-            return chunk(self.data, self.type | REPR_TEMPORAL)
+                return chunk(self.data, TYPE_NUMERIC | REPR_TEMPORAL, self.size)
+            return chunk(self.data, self.type | REPR_TEMPORAL, self.size)
         return chunk(
             mf_strptime(self.prepare().data, formats),  # type: ignore
             TYPE_NUMERIC | REPR_TEMPORAL | REPR_PREPARED,
+            self.size,
         )  # type: ignore
 
     def take(self, index: int | pa.BooleanArray | slice) -> chunk:
-- 
2.43.0


From d2583041eb341c04c64bc9f0748eafd68d49a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 31/78] fix: floats out of int64 range are not converted to
 integers

---
 rxls/chunk/casts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 3182876..0222ddb 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -177,7 +177,11 @@ def f8_is_i8(arr: NDArray[np.float64], int_threshold: int) -> np.bool_:
         Is rounded input potentially integer array, or not
 
     """
-    return ~np.any(np.trunc(arr) != np.round(arr, int_threshold))
+    # NOTE: values out of int64 range are integers too, but cannot be represented as int64
+    return ~np.any(
+        (np.trunc(arr) != np.round(arr, int_threshold))
+        | (np.abs(arr) >= np.float64(9_223_372_036_854_775_808.0)),
+    )
 
 
 def dt_has_t(arr: NDArray[np.int64]) -> np.bool_:
-- 
2.43.0


From 686f31298a38a24369ba37db1b79fadc575c0995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 32/78] fix: serial dates are rounded to the nearest
 millisecond, not truncated

---
 rxls/chunk/casts.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 0222ddb..6a603c6 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -90,7 +90,9 @@ def f8_to_ms_win(arr: NDArray[np.float64]) -> NDArray[np.int64]:
     # NOTE 2: 25_569 - actual days for backward compatibility reason (for dates greater or equal to 1900-03-01)
     # NOTE 3: 86_400_000 - milliseconds per day
 
-    return (
+    # NOTE 4: fractions of day are not exact, so result is rounded to the nearest millisecond
+
+    return np.rint(
         (
             arr
             - (
@@ -98,7 +100,7 @@ def f8_to_ms_win(arr: NDArray[np.float64]) -> NDArray[np.int64]:
                 * (np.float64(25_569.0) - (arr < np.float64(60.0)))
             )
         )
-        * np.float64(86_400_000.0)
+        * np.float64(86_400_000.0),
     ).astype(np.int64)
 
 
@@ -286,7 +288,7 @@ if NUMBA_AVAILABLE:
             out[:] = (arr.astype(np.int32) << np.int32(2) | np.int32(2)).view(np.uint32)
 
         def __gu_f8_to_ms_win(arr: NDArray[np.float64], out: NDArray[np.int64]) -> None:
-            out[:] = (
+            out[:] = np.rint(
                 (
                     arr
                     - (
@@ -294,7 +296,7 @@ if NUMBA_AVAILABLE:
                         * (np.float64(25_569.0) - (arr < np.float64(60.0)))
                     )
                 )
-                * np.float64(86_400_000.0)
+                * np.float64(86_400_000.0),
             ).astype(np.int64)
 
         def __gu_ms_to_f8_win(arr: NDArray[np.int64], out: NDArray[np.float64]) -> None:
-- 
2.43.0


From 97bc46dd76c0f7922a7dfba7717a0cc3f1520a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 33/78] fix: timestamps before 1970 are converted to serial
 dates

---
 rxls/chunk/casts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 6a603c6..94c2e9e 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -133,7 +133,7 @@ def ms_to_f8_win(arr: NDArray[np.int64]) -> NDArray[np.float64]:
     return (
         arr
         + (
-            (arr >= ms_per_dy)
+            ((arr >= ms_per_dy) | (arr < 0))
             * (2_209_075_200_000 + (arr >= np.int64(-2_203_891_200_000)) * ms_per_dy)
         )
     ) / ms_per_dy
@@ -305,7 +305,7 @@ if NUMBA_AVAILABLE:
             out[:] = (
                 arr
                 + (
-                    (arr >= ms_per_dy)
+                    ((arr >= ms_per_dy) | (arr < 0))
                     * (
                         2_209_075_200_000
                         + (arr >= np.int64(-2_203_891_200_000)) * ms_per_dy
-- 
2.43.0


From 191b3c6056d8386a1562072d70aa59b43961192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 34/78] fix: f8_to_rk keeps negative and large numbers

---
 rxls/chunk/casts.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 94c2e9e..c190850 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -140,15 +140,20 @@ def ms_to_f8_win(arr: NDArray[np.int64]) -> NDArray[np.float64]:
 
 
 def f8_to_rk(arr: NDArray[np.float64]) -> NDArray[np.uint32]:
+    # NOTE: only 30-bit signed integers (maybe, divided by 100) are representable as is
+    limit = np.float64(0x2000_0000)
+    cents = np.rint(arr * np.float64(100.0))
+
+    is_int = (np.trunc(arr) == arr) & (arr >= -limit) & (arr < limit)
+    is_cnt = (cents / np.float64(100.0) == arr) & (cents >= -limit) & (cents < limit)
+
     return np.where(
-        arr == np.round(arr, 2),
+        is_int | is_cnt,
         np.where(
-            np.trunc(arr) == np.round(arr, 2),
-            ((arr + np.float64(0.001)).astype(np.int32) << np.int32(2)) | np.int32(2),
-            (
-                (arr * np.float64(100.0) + np.float64(0.001)).astype(np.int32)
-                << np.int32(2)
-            )
+            is_int,
+            (np.where(is_int, arr, np.float64(0)).astype(np.int32) << np.int32(2))
+            | np.int32(2),
+            (np.where(is_cnt, cents, np.float64(0)).astype(np.int32) << np.int32(2))
             | np.int32(3),
         ).view(np.uint32),
         (arr.view(np.uint64) >> np.uint64(32)).astype(np.uint32)
@@ -262,17 +267,27 @@ if NUMBA_AVAILABLE:
             )
 
         def __gu_f8_to_rk(arr: NDArray[np.float64], out: NDArray[np.uint32]) -> None:
+            limit = np.float64(0x2000_0000)
+            cents = np.rint(arr * np.float64(100.0))
+
+            is_int = (np.trunc(arr) == arr) & (arr >= -limit) & (arr < limit)
+            is_cnt = (
+                (cents / np.float64(100.0) == arr)
+                & (cents >= -limit)
+                & (cents < limit)
+            )
+
             out[:] = np.where(
-                arr == np.round(arr, 2),
+                is_int | is_cnt,
                 np.where(
-                    np.trunc(arr) == np.round(arr, 2),
+                    is_int,
                     (
-                        (arr + np.float64(0.001)).astype(np.int64).astype(np.int32)
+                        np.where(is_int, arr, np.float64(0)).astype(np.int32)
                         << np.int32(2)
                     )
                     | np.int32(2),
                     (
-                        (arr * np.float64(100.0) + np.float64(0.001)).astype(np.int32)
+                        np.where(is_cnt, cents, np.float64(0)).astype(np.int32)
                         << np.int32(2)
                     )
                     | np.int32(3),
-- 
2.43.0


From 5c80dc56da17140f395625684ccbd8f84011251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 35/78] fix: midnight, 1970-01-01 and earlier dates are valid
 results of date parsing

---
 rxls/chunk/casts.py | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index c190850..f4a184d 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -19,6 +19,7 @@ __all__ = [
     "rk_to_f8",
 ]
 
+import re
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -624,6 +625,25 @@ def _unsafe_strings_to_array(
 
 _unsafe_strings_to_array = np.fromiter  # type: ignore
 
+NOT_A_TIME = np.int64(np.iinfo(np.int64).min)
+"Mark of value, that cannot be parsed (0 is a valid timestamp: `00:00:00` or `1970-01-01`)"
+
+MIN_TIMESTAMP = np.int64(-30_610_224_000_000)
+"1000-01-01: anything less is a year without century, parsed as `%Y`"
+
+DATE_DIRECTIVES = re.compile(r"%[-_0^#EO]*[aAbBcCdDeFgGhjmsuUVwWxyY]")
+
+
+def _timestamps(arr: pa.Array, format: str, /) -> NDArray[np.int64]:
+    """Timestamps (milliseconds) from parsed arrow array. Time without date is the time since 1970-01-01"""
+    ret = np.asarray(arr.cast(pa.int64()).fill_null(int(NOT_A_TIME)), np.int64)
+
+    if DATE_DIRECTIVES.search(format) is None:
+        return np.where(ret == NOT_A_TIME, ret, ret % np.int64(86_400_000))
+
+    return np.where(ret < MIN_TIMESTAMP, NOT_A_TIME, ret)
+
+
 if POLARS_AVAILABLE:
     import polars as pl
 
@@ -644,16 +664,15 @@ if POLARS_AVAILABLE:
 
         Returns:
         -------
-            NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01)
+            NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01), or `NOT_A_TIME`, when value cannot be parsed
 
         """
-        ret = _unsafe_array(
+        return _timestamps(
             pl.from_arrow(arr)
             .str.strptime(pl.Datetime("ms"), format, strict=False)  # type: ignore
             .to_arrow(),
-            np.int64,
+            format,
         )
-        return np.where(ret < 0, ret % np.int64(86_400_000), ret)
 
 else:
     DEFAULT_TIME_FORMATS: tuple[str, ...] = (
@@ -674,11 +693,10 @@ else:
 
         Returns:
         -------
-            NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01)
+            NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01), or `NOT_A_TIME`, when value cannot be parsed
 
         """
-        ret = _unsafe_array(strptime(arr, format, "ms", True), np.int64)
-        return np.where(ret < 0, ret % np.int64(86_400_000), ret)
+        return _timestamps(strptime(arr, format, "ms", True), format)
 
 
 DEFAULT_DATE_FORMATS: tuple[str, ...] = (
@@ -743,7 +761,7 @@ def mf_strptime(
         If one or more values cannot be recognized as temporal, using given formats.
 
     """
-    result = np.repeat(np.int64(0), len(arr))
+    result = np.repeat(NOT_A_TIME, len(arr))
 
     if not formats:
         formats = (
@@ -753,11 +771,11 @@ def mf_strptime(
         )
 
     for format in formats:
-        result = np.where(result == 0, _strptime(arr, format), result)
+        result = np.where(result == NOT_A_TIME, _strptime(arr, format), result)
 
-        if np.all(result > np.int64(0)):
+        if not np.any(result == NOT_A_TIME):
             return result
 
-    if strict and np.any(result == 0):
+    if strict and np.any(result == NOT_A_TIME):
         raise pa.ArrowInvalid
-    return result
+    return np.where(result == NOT_A_TIME, np.int64(0), result)
-- 
2.43.0


From 8f38a9586c8b7ad85a51bae667599bc39185f357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 36/78] fix: shared string index out of table is an error, not
 a read of foreign memory

---
 rxls/chunk/arrow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/arrow.py b/rxls/chunk/arrow.py
index 68915db..b882c8c 100644
--- a/rxls/chunk/arrow.py
+++ b/rxls/chunk/arrow.py
@@ -111,7 +111,7 @@ def and_(x: PaArray, y: PaValue, /) -> pa.BooleanArray:
     raise NotImplementedError
 
 
-@arrow_fn("array_take", pc.TakeOptions(boundscheck=False))
+@arrow_fn("array_take", pc.TakeOptions(boundscheck=True))
 def take(
     arr: MonoArray,
     indices: PaArray | list[int],
-- 
2.43.0


From 8622bbe542b9e2797efc00d7e4bfdfea681be399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 37/78] fix: truncated cell values are an error, not garbage
 from beyond the buffer

---
 rxls/chunk/casts.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index f4a184d..21feac2 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -533,10 +533,16 @@ def _unsafe_data_to_arrow(
         Arrow array of expected dtype
 
     """
+    buf = b"".join(data)
+    # NOTE: arrow does not check that buffer is large enough
+    if len(buf) * 8 != len(data) * dtype.bit_width:  # type: ignore
+        msg = "Incorrect size of values"
+        raise ValueError(msg)
+
     return from_buffers(
         dtype,
         len(data),  # type: ignore
-        (None, pa.py_buffer(b"".join(data))),  # type: ignore
+        (None, pa.py_buffer(buf)),  # type: ignore
         0,
     )
 
@@ -568,7 +574,12 @@ def _unsafe_data_to_array(
         Numpy array of expected dtype
 
     """
-    return np.frombuffer(b"".join(data), dtype)
+    ret = np.frombuffer(b"".join(data), dtype)
+    # NOTE: otherwise, values are shifted
+    if len(ret) != len(data):  # type: ignore
+        msg = "Incorrect size of values"
+        raise ValueError(msg)
+    return ret
 
 
 def _unsafe_bool_arrow_to_numpy(arr: pa.BooleanArray) -> NDArray[np.bool_]:
-- 
2.43.0


From 09e80efd42e42dfde063d2dc8c88a251d8ffd496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 38/78] fix: fractions of seconds, quoted separators and
 uppercase durations in number formats

---
 rxls/reader/xlsb.py |  6 ++++--
 rxls/reader/xlsx.py | 17 +++++++++++------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 931bce4..ad24c56 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -32,7 +32,9 @@ if TYPE_CHECKING:
     from typing_extensions import Self
 
 re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
-re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
+re_xt = re.compile(r'(?i)(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
+# NOTE: separator of sections may be quoted or escaped
+re_section = re.compile(r'(?s)(?:"[^"]*"|\\.|[^;])*')
 
 ERROR_STRINGS = frozenset(
     (
@@ -166,7 +168,7 @@ class XlsbWorkbook:  # noqa: D101
             # ! [1]: Get full formats list from custom BrtFmt records (only 1-st format from every record)
             # NOTE: 2 bytes of format ID, 4 bytes of length, then format code itself
             fms = {
-                r.data[:2]: r.data[6:].decode("utf-16-le").split(";", 1)[0]
+                r.data[:2]: re_section.match(r.data[6:].decode("utf-16-le")).group()  # type: ignore
                 for r in scan_biff(io, {44})
             }
 
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 8761cd3..925f807 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -35,7 +35,9 @@ if TYPE_CHECKING:
     T = TypeVar("T")
 
 re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
-re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
+re_xt = re.compile(r'(?i)(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
+# NOTE: separator of sections may be quoted or escaped
+re_section = re.compile(r'(?s)(?:"[^"]*"|\\.|[^;])*')
 
 re_date = re.compile(r"[ydYD]")
 re_time = re.compile(r"[hsHS]")
@@ -233,7 +235,9 @@ class XlsxWorkbook:  # noqa: D101
                 nonlocal xfs, fms, xfs_id
 
                 if tag == "numFmt":
-                    fms[attrs["numFmtId"]] = attrs["formatCode"].split(";", 1)[0]
+                    fms[attrs["numFmtId"]] = re_section.match(
+                        attrs["formatCode"],
+                    ).group()  # type: ignore
 
                 elif tag == "xf" and "xfId" in attrs:
                     xfs[str(xfs_id)] = attrs["numFmtId"]
@@ -247,12 +251,13 @@ class XlsxWorkbook:  # noqa: D101
 
         for f_id, fmt in fms.items():
             xf_id = [x for x, y in xfs.items() if y == f_id]
-            if fmt == "0" or ".00" in fmt:
-                ret_numerics.update(xf_id)
-
-            elif re_dt.search(re_xt.sub("", fmt)):
+            # NOTE: `.00` may be fraction of seconds too
+            if re_dt.search(re_xt.sub("", fmt)):
                 ret_temporal.update(xf_id)
 
+            elif fmt == "0" or ".00" in fmt:
+                ret_numerics.update(xf_id)
+
         ret_temporal.update(
             (
                 x
-- 
2.43.0


From d233cfa529d9340146c6dcbcad7f45691208b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 39/78] fix: sheet without values is an empty table

---
 rxls/reader/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index 07b2ded..6008e0e 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -184,7 +184,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
     # columns = {i: _columns.get(i, []) for i in range(min_col, max_col + 1)}
     columns = _columns
 
-    max_len = max(len(x) for x in columns.values())
+    max_len = max((len(x) for x in columns.values()), default=0)
 
     first_row = 0
 
-- 
2.43.0


From 06e9f6d0d59f471d06952d08f2cacd898a039870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 40/78] fix: xlsx cell formats are those of cellXfs, whatever
 their optional attributes

---
 rxls/reader/xlsx.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 925f807..9fb211b 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -221,6 +221,7 @@ class XlsxWorkbook:  # noqa: D101
         ret_numerics: set[str] = set()
 
         xfs_id = 0
+        is_cell_xfs = False
         xfs: dict[str, str] = {}
 
         fms: dict[str, str] = {}
@@ -232,19 +233,29 @@ class XlsxWorkbook:  # noqa: D101
         with self.zf.open("xl/styles.xml") as io:
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
-                nonlocal xfs, fms, xfs_id
+                nonlocal xfs, fms, xfs_id, is_cell_xfs
 
-                if tag == "numFmt":
+                if tag == "cellXfs":
+                    is_cell_xfs = True
+
+                elif tag == "numFmt":
                     fms[attrs["numFmtId"]] = re_section.match(
                         attrs["formatCode"],
                     ).group()  # type: ignore
 
-                elif tag == "xf" and "xfId" in attrs:
-                    xfs[str(xfs_id)] = attrs["numFmtId"]
+                # NOTE: all attributes of cell formats are optional
+                elif tag == "xf" and is_cell_xfs:
+                    xfs[str(xfs_id)] = attrs.get("numFmtId", "0")
                     xfs_id += 1
 
+            def cell_eh(tag: str) -> None:
+                nonlocal is_cell_xfs
+                if tag == "cellXfs":
+                    is_cell_xfs = False
+
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
+            parser.EndElementHandler = cell_eh
             parser.buffer_text = True
 
             parser.ParseFile(io)
-- 
2.43.0


From 0e07308d65255ae19da16589a898459870cf4bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 41/78] fix: rows omitted in the sheet are empty rows

---
 rxls/reader/xlsb.py | 15 +++++++++++++++
 rxls/reader/xlsx.py | 28 +++++++++++++++++++++++++---
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index ad24c56..7d7a41e 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -60,6 +60,9 @@ TEMPORAL_STYLES = frozenset(
 )
 
 
+MAX_ROWS = 0x100000
+
+
 class XlsbWorkbook:  # noqa: D101
     __slots__ = ("__dict__", "__file", "null_shared", "null_values", "zf")
 
@@ -224,6 +227,8 @@ class XlsbWorkbook:  # noqa: D101
         if take_rows:
             take_rows += skip_rows
         row = -1
+        # NOTE: number of next row in the sheet (rows without cells may be omitted)
+        sheet_row = 0
         is_empty_row = False
 
         with self.zf.open(sheet_path) as io:
@@ -243,6 +248,16 @@ class XlsbWorkbook:  # noqa: D101
                     # ? Skipped rows are always counted
                     if not is_empty_row or take_rows_non_empty or row < skip_rows:
                         row += 1
+                    # ? Omitted rows are empty rows
+                    (number,) = u4_u(r.data[:4])
+                    if number >= MAX_ROWS:
+                        msg = f"Incorrect row number: {number}"
+                        raise ValueError(msg)
+                    omitted = max(0, number - sheet_row)
+                    if not take_rows_non_empty:
+                        omitted = min(omitted, max(0, skip_rows - row))
+                    row += omitted
+                    sheet_row = max(sheet_row, number) + 1
                     # ? If upcoming row number is greater than take_rows, stop iteration
                     if 0 < take_rows < row:
                         break
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 9fb211b..57b8c16 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -88,6 +88,9 @@ TEMPORAL_STYLES = frozenset(
 NUMERIC_STYLES = frozenset([0x01, 0x02, 0x03, 0x04, 0x25, 0x26, 0x27, 0x28, 0x30])
 
 
+MAX_ROWS = 0x100000
+
+
 class XlsxWorkbook:  # noqa: D101
     __slots__ = ("__dict__", "__file", "null_shared", "null_values", "zf")
 
@@ -343,6 +346,9 @@ class XlsxWorkbook:  # noqa: D101
             row = -1
             "Number of current row"
 
+            sheet_row = 0
+            "Number of next row in the sheet (rows without cells may be omitted)"
+
             is_empty_row: bool = True
             is_sharedstr: bool = False
 
@@ -363,9 +369,15 @@ class XlsxWorkbook:  # noqa: D101
             if callback is not None:
                 callback()
 
+            def check_limit() -> None:
+                # ? Simple way to break in generator, that works in background thread
+                if 0 < take_rows < row:
+                    raise GeneratorExit
+
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
                 nonlocal \
                     row, \
+                    sheet_row, \
                     tags, \
                     l_col, \
                     c_typ, \
@@ -396,6 +408,18 @@ class XlsxWorkbook:  # noqa: D101
 
                         c_row = row
                         parts.clear()
+                    elif tag == "row":
+                        # ? Omitted rows are empty rows
+                        number = int(attrs.get("r", sheet_row + 1))
+                        if not 0 < number <= MAX_ROWS:
+                            raise ValueError(f"Incorrect row number: {number}")
+                        omitted = max(0, number - 1 - sheet_row)
+                        if not take_non_empty:
+                            omitted = min(omitted, max(0, skip_rows - row))
+                        row += omitted
+                        sheet_row = max(sheet_row, number - 1) + 1
+                        check_limit()
+                        return
                     else:
                         return
                 elif tag == "rPh":
@@ -473,9 +497,7 @@ class XlsxWorkbook:  # noqa: D101
                     if callback is not None:
                         callback()
 
-                    # ? Simple way to break in generator, that works in background thread
-                    if 0 < take_rows < row:
-                        raise GeneratorExit
+                    check_limit()
 
                 elif tag == "c":
                     if l_tag:
-- 
2.43.0


From 5fc4c46db50722edac6992ccfb8d3985c7a82dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 42/78] fix: xlsx cells without reference follow the previous
 cell

---
 rxls/reader/xlsx.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 57b8c16..20dfbd1 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -356,7 +356,8 @@ class XlsxWorkbook:  # noqa: D101
             c_row: int = 0
             c_typ: int = 0
 
-            l_col: str = ""
+            l_col: int = -1
+            "Column of the last cell in the row"
 
             l_tag: str | None = None
 
@@ -391,7 +392,11 @@ class XlsxWorkbook:  # noqa: D101
                     # ? If tags is empty, we are outside of sheet data.
                     if tag == "c" and row >= skip_rows:
                         # ? get cell coordinates
-                        l_col = attrs["r"]
+                        # NOTE: this attribute is optional
+                        if "r" in attrs:
+                            l_col = col_idx(attrs["r"].encode())
+                        else:
+                            l_col += 1
 
                         # ? check, if value is shared string index:
                         is_sharedstr = attrs.get("t") == "s"
@@ -417,6 +422,7 @@ class XlsxWorkbook:  # noqa: D101
                         if not take_non_empty:
                             omitted = min(omitted, max(0, skip_rows - row))
                         row += omitted
+                        l_col = -1
                         sheet_row = max(sheet_row, number - 1) + 1
                         check_limit()
                         return
@@ -456,12 +462,11 @@ class XlsxWorkbook:  # noqa: D101
                     elif nullpd(txt):
                         return
 
-                    c_col = col_idx(l_col.encode())
-                    if not skip_cols or c_col not in skip_cols:
+                    if not skip_cols or l_col not in skip_cols:
                         o_q.put(
                             cell(
                                 c_row - skip_rows,
-                                c_col,
+                                l_col,
                                 c_typ,
                                 txt.encode("utf-8"),
                             ),
-- 
2.43.0


From 5bc80d5e594db561b0e8e42dab84a12d8c018e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 43/78] fix: xlsx booleans are numbers whatever their style, as
 in xlsb

---
 rxls/reader/xlsx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 20dfbd1..2c2a7b1 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -405,6 +405,9 @@ class XlsxWorkbook:  # noqa: D101
                         # ? result of string formula (or inline string) is a string with any style
                         elif attrs.get("t") in {"str", "inlineStr"}:
                             c_typ = TYPE_STRING | REPR_PREPARED
+                        # ? boolean is a number with any style
+                        elif attrs.get("t") == "b":
+                            c_typ = TYPE_NUMERIC
                         # ? check, if value has temporal or numeric representation
                         elif typ := styles.get(attrs.get("s", "0")):
                             c_typ = typ
-- 
2.43.0


From e9ccfc0d73155e905736a8dbcd80356911bde98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 44/78] fix: xlsx error cells are null whatever the error is

---
 rxls/reader/xlsx.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 2c2a7b1..751ee1a 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -398,6 +398,10 @@ class XlsxWorkbook:  # noqa: D101
                         else:
                             l_col += 1
 
+                        # ? errors have no value
+                        if attrs.get("t") == "e":
+                            return
+
                         # ? check, if value is shared string index:
                         is_sharedstr = attrs.get("t") == "s"
                         if is_sharedstr:
-- 
2.43.0


From 3e59f671aa1252ea8e8ed5fbaf9b043f78432ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:59 +0000
Subject: [PATCH 45/78] fix: xlsx null values apply to strings only, as in xlsb

---
 rxls/reader/xlsx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 751ee1a..95cce1b 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -466,7 +466,7 @@ class XlsxWorkbook:  # noqa: D101
                         if txt in nullss:
                             return
                     # ? Check, that null value predicate is false for this string
-                    elif nullpd(txt):
+                    elif c_typ & TYPE_STRING and nullpd(txt):
                         return
 
                     if not skip_cols or l_col not in skip_cols:
-- 
2.43.0


From e3061357276612efe3e1759ad812dac8ebfe1f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:18 +0000
Subject: [PATCH 46/78] fix: large integers stay integers despite of inexact
 rounding

---
 rxls/chunk/casts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 21feac2..a87e32d 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -187,7 +187,8 @@ def f8_is_i8(arr: NDArray[np.float64], int_threshold: int) -> np.bool_:
     """
     # NOTE: values out of int64 range are integers too, but cannot be represented as int64
     return ~np.any(
-        (np.trunc(arr) != np.round(arr, int_threshold))
+        # NOTE: rounding of large integers is not exact
+        ((np.trunc(arr) != arr) & (np.trunc(arr) != np.round(arr, int_threshold)))
         | (np.abs(arr) >= np.float64(9_223_372_036_854_775_808.0)),
     )
 
-- 
2.43.0


From dc66018e916a6efd543ab2bf29f046957bf9e51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 47/78] fix: xlsx escaped characters are decoded

---
 rxls/reader/xlsx.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 95cce1b..0102d93 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -65,6 +65,19 @@ ERROR_STRINGS = frozenset(
 )
 
 
+re_escape = re.compile(r"_x([0-9A-Fa-f]{4})_")
+
+
+def unescape(txt: str) -> str:
+    """Characters, that are not allowed in XML, are stored as `_xHHHH_`"""
+    if "_x" not in txt:
+        return txt
+    return re_escape.sub(
+        lambda m: m[0] if 0xD800 <= (c := int(m[1], 16)) < 0xE000 else chr(c),
+        txt,
+    )
+
+
 def col_idx(col: bytes) -> int:
     a = -1
     i = 0
@@ -197,7 +210,7 @@ class XlsxWorkbook:  # noqa: D101
                 elif tag == "rPh":
                     is_phonetic = False
                 elif tag == "si":
-                    txt = "".join(parts).strip()
+                    txt = unescape("".join(parts)).strip()
                     if txt and not self.null_values(txt):
                         ret.append(txt)
                     else:
@@ -460,7 +473,7 @@ class XlsxWorkbook:  # noqa: D101
                     skip_rows, \
                     skip_cols
 
-                if txt := "".join(parts).strip():
+                if txt := unescape("".join(parts)).strip():
                     if is_sharedstr:
                         # ? Check, that shared string number is not in null-shared
                         if txt in nullss:
-- 
2.43.0


From b552d978d42b02a6b7ff3d842b802dfb7f104643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 48/78] fix: xlsx escaped characters are never joined from
 neighbour runs

---
 rxls/reader/xlsx.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 0102d93..bad02bf 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -187,17 +187,19 @@ class XlsxWorkbook:  # noqa: D101
         with self.zf.open("xl/sharedStrings.xml") as io:
             # NOTE: text of one item may be split by runs and by parser buffer
             parts: list[str] = []
+            l_part = 0
             is_text = False
             is_phonetic = False
 
             def cell_sh(tag: str, _: dict[str, str]) -> None:
-                nonlocal is_text, is_phonetic
+                nonlocal l_part, is_text, is_phonetic
                 if tag == "si":
                     parts.clear()
                 elif tag == "rPh":
                     is_phonetic = True
                 elif tag == "t":
                     is_text = not is_phonetic
+                    l_part = len(parts)
 
             def cell_th(txt: str) -> None:
                 if is_text:
@@ -207,10 +209,11 @@ class XlsxWorkbook:  # noqa: D101
                 nonlocal is_text, is_phonetic
                 if tag == "t":
                     is_text = False
+                    parts[l_part:] = [unescape("".join(parts[l_part:]))]
                 elif tag == "rPh":
                     is_phonetic = False
                 elif tag == "si":
-                    txt = unescape("".join(parts)).strip()
+                    txt = "".join(parts).strip()
                     if txt and not self.null_values(txt):
                         ret.append(txt)
                     else:
@@ -376,6 +379,7 @@ class XlsxWorkbook:  # noqa: D101
 
             # NOTE: text of one cell may be split by runs and by parser buffer
             parts: list[str] = []
+            l_part: int = 0
             is_phonetic: bool = False
 
             # ? First row started event:
@@ -398,6 +402,7 @@ class XlsxWorkbook:  # noqa: D101
                     c_row, \
                     styles, \
                     l_tag, \
+                    l_part, \
                     skip_rows, \
                     is_sharedstr, \
                     is_phonetic
@@ -453,6 +458,7 @@ class XlsxWorkbook:  # noqa: D101
                 # ? Add to tags only if it is already contains something.
                 # ? Also, add if it is empty and current tag == 'c'
                 l_tag = tag
+                l_part = len(parts)
                 # tags.append(l_tag := tag)
 
             def cell_th(txt: str) -> None:
@@ -473,7 +479,7 @@ class XlsxWorkbook:  # noqa: D101
                     skip_rows, \
                     skip_cols
 
-                if txt := unescape("".join(parts)).strip():
+                if txt := "".join(parts).strip():
                     if is_sharedstr:
                         # ? Check, that shared string number is not in null-shared
                         if txt in nullss:
@@ -502,6 +508,7 @@ class XlsxWorkbook:  # noqa: D101
                     c_typ, \
                     c_row, \
                     l_tag, \
+                    l_part, \
                     is_phonetic
 
                 # if tags:
@@ -535,6 +542,9 @@ class XlsxWorkbook:  # noqa: D101
                     l_tag = "c"
                     if tag == "rPh":
                         is_phonetic = False
+                    elif len(parts) > l_part:
+                        parts[l_part:] = [unescape("".join(parts[l_part:]))]
+                        l_part = len(parts)
 
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
-- 
2.43.0


From e77c922ff95d57372e8b99340509714b6a031fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 49/78] fix: xlsb styles are read before the sheet, so stored
 sheets are scanned correctly

---
 rxls/reader/xlsb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 7d7a41e..6c85a12 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -207,6 +207,8 @@ class XlsbWorkbook:  # noqa: D101
         _sheets = self.sheets
         # NOTE: `null_shared` is filled by this scan, so it must be done before reading
         _ = self.shared
+        # NOTE: relative seek in stored part is broken, if another part was read in the meantime
+        styles = self.styles
 
         if isinstance(sheet, int):
             if not (0 <= sheet < len(_sheets)):
@@ -286,7 +288,7 @@ class XlsbWorkbook:  # noqa: D101
                 if skip_cols and col in skip_cols:
                     continue
 
-                adv_repr = REPR_TEMPORAL if r.data[4:7] in self.styles else 0
+                adv_repr = REPR_TEMPORAL if r.data[4:7] in styles else 0
 
                 if r.rec_id in {6, 8}:
                     # NOTE: The slowest case, due to utf-16 encoding.
-- 
2.43.0


From 781f4648aef908161213494b1cc6ad3bb70197f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 50/78] fix: unneeded BIFF12 records are read instead of seeked
 over, so damage is not missed

---
 rxls/biff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rxls/biff.py b/rxls/biff.py
index 9394c38..1e985d1 100644
--- a/rxls/biff.py
+++ b/rxls/biff.py
@@ -4,7 +4,6 @@ from __future__ import annotations
 
 __all__ = ["dump_sz", "record", "scan_biff"]
 
-import os
 from io import BytesIO
 from struct import Struct as st
 from typing import TYPE_CHECKING
@@ -240,6 +239,7 @@ else:
                         yield record(id, b"")
 
                 elif sz:
-                    io.seek(sz, os.SEEK_CUR)
+                    # NOTE: seek in the stored part of archive disables its checksum verification
+                    io.read(sz)
         except IndexError:  # , GeneratorExit, StopIteration
             pass
-- 
2.43.0


From 67e78a758e1a3c7e05989714ba578f0c45de254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 51/78] fix: xlsx early stop is not confused with exception of
 the callback

---
 rxls/reader/xlsx.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index bad02bf..01c921d 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -104,6 +104,10 @@ NUMERIC_STYLES = frozenset([0x01, 0x02, 0x03, 0x04, 0x25, 0x26, 0x27, 0x28, 0x30
 MAX_ROWS = 0x100000
 
 
+class StopParsing(Exception):  # noqa: N818
+    """Rows limit is reached"""
+
+
 class XlsxWorkbook:  # noqa: D101
     __slots__ = ("__dict__", "__file", "null_shared", "null_values", "zf")
 
@@ -388,9 +392,9 @@ class XlsxWorkbook:  # noqa: D101
                 callback()
 
             def check_limit() -> None:
-                # ? Simple way to break in generator, that works in background thread
+                # ? Simple way to break the parser, that works in background thread
                 if 0 < take_rows < row:
-                    raise GeneratorExit
+                    raise StopParsing
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
                 nonlocal \
@@ -554,7 +558,7 @@ class XlsxWorkbook:  # noqa: D101
 
             try:
                 parser.ParseFile(io)
-            except GeneratorExit:
+            except StopParsing:
                 pass
             except BaseException as e:  # noqa: BLE001
                 # NOTE: must be raised in the thread of consumer, not in this one.
-- 
2.43.0


From 14331edb8e9b5a8389ff58e3f84ad121dd35a6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 52/78] fix: escaped, padding and filling characters of number
 formats are not date parts

---
 rxls/reader/xlsb.py | 7 ++++---
 rxls/reader/xlsx.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 6c85a12..1fd7ebc 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -31,10 +31,11 @@ if TYPE_CHECKING:
 
     from typing_extensions import Self
 
-re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
-re_xt = re.compile(r'(?i)(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
+re_dt = re.compile(r"[dmhysDMHYS]")
+# NOTE: quoted text, escaped, padding or filling character, brackets (except of durations)
+re_xt = re.compile(r'(?is)"[^"]*"|[\\_*].|\[(?!(?:h+|m+|s+)\])[^\]]*\]')
 # NOTE: separator of sections may be quoted or escaped
-re_section = re.compile(r'(?s)(?:"[^"]*"|\\.|[^;])*')
+re_section = re.compile(r'(?s)(?:"[^"]*"|[\\_*].|[^;])*')
 
 ERROR_STRINGS = frozenset(
     (
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 01c921d..77aeb22 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -34,10 +34,11 @@ if TYPE_CHECKING:
 
     T = TypeVar("T")
 
-re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
-re_xt = re.compile(r'(?i)(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
+re_dt = re.compile(r"[dmhysDMHYS]")
+# NOTE: quoted text, escaped, padding or filling character, brackets (except of durations)
+re_xt = re.compile(r'(?is)"[^"]*"|[\\_*].|\[(?!(?:h+|m+|s+)\])[^\]]*\]')
 # NOTE: separator of sections may be quoted or escaped
-re_section = re.compile(r'(?s)(?:"[^"]*"|\\.|[^;])*')
+re_section = re.compile(r'(?s)(?:"[^"]*"|[\\_*].|[^;])*')
 
 re_date = re.compile(r"[ydYD]")
 re_time = re.compile(r"[hsHS]")
-- 
2.43.0


From e2540c71d558938316dd51464523a57fdbbae8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 53/78] fix: exception of the first row callback call does not
 hang xlsx reader

---
 rxls/reader/xlsx.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 77aeb22..b802244 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -389,8 +389,6 @@ class XlsxWorkbook:  # noqa: D101
 
             # ? First row started event:
             row += 1
-            if callback is not None:
-                callback()
 
             def check_limit() -> None:
                 # ? Simple way to break the parser, that works in background thread
@@ -558,6 +556,9 @@ class XlsxWorkbook:  # noqa: D101
             parser.buffer_text = True
 
             try:
+                if callback is not None:
+                    callback()
+
                 parser.ParseFile(io)
             except StopParsing:
                 pass
-- 
2.43.0


From 220c8899e931435556997ce98498b6ab1cdb10c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 54/78] fix: xlsx references out of shared strings are not
 wrapped into 32 bits

---
 rxls/chunk/chunk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index 5c21b9b..fe54e85 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -110,8 +110,9 @@ class chunk:  # noqa: D101, N801
                 shareds = EMPTY_SHAREDS
             return chunk(
                 _unsafe_arrow(
-                    _unsafe_strings_to_array(data, np.uint32, data_len),
-                    UI_4,
+                    # NOTE: out of range references must not be wrapped
+                    _unsafe_strings_to_array(data, np.int64, data_len),
+                    I__8,
                 ),
                 TYPE_STRING | REPR_SHARED,
                 data_len,
-- 
2.43.0


From 662cebdf609d92d48f18d31c3a9ebe2fc98a89c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 55/78] fix: xlsx parser thread does not outlive the reading

---
 rxls/reader/xlsx.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index b802244..8435d97 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -576,7 +576,7 @@ class XlsxWorkbook:  # noqa: D101
         errors: list[BaseException] = []
 
         with self.zf.open(sheet_path) as io:
-            Thread(
+            thread = Thread(
                 target=worker,
                 args=(
                     io,
@@ -591,9 +591,15 @@ class XlsxWorkbook:  # noqa: D101
                     sentinel,
                     row_callback,
                 ),
-            ).start()
+            )
+            thread.start()
 
-            yield from iter(o_q.get, sentinel)
+            try:
+                yield from iter(o_q.get, sentinel)
+            finally:
+                # NOTE: file must not be used by worker after the end of reading
+                io.close()
+                thread.join()
 
             if errors:
                 raise errors[0]
-- 
2.43.0


From 1e1633c6f263707c173219818cb6ce9d951e0593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 56/78] fix: masks are respected by extraction from empty
 column store

---
 rxls/series.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rxls/series.py b/rxls/series.py
index 2d213c1..631e77c 100644
--- a/rxls/series.py
+++ b/rxls/series.py
@@ -160,6 +160,8 @@ class xl_series:  # noqa: N801
         if self.__chunk:
             self.__pull_chunk()
         if not self.__chunks:
+            if idx is not None:
+                length = idx.true_count
             if length:
                 return pa.nulls(length).cast("large_string")
             return pa.nulls(0).cast("large_string")
@@ -184,6 +186,8 @@ class xl_series:  # noqa: N801
         if self.__chunk:
             self.__pull_chunk()
         if not self.__chunks:
+            if idx is not None:
+                length = idx.true_count
             if length:
                 return pa.nulls(length)
             return pa.nulls(0)
-- 
2.43.0


From 34092247cbb85cd197123c7223a66cf2c37c9287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 57/78] fix: slices with step of numeric chunks are usable

---
 rxls/chunk/chunk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index fe54e85..037601f 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -273,7 +273,8 @@ class chunk:  # noqa: D101, N801
         if isinstance(index, int):
             _data = self.data[index : index + 1]  # type: ignore
         elif isinstance(index, slice):
-            _data = self.data[index]  # type: ignore
+            # NOTE: values are used as contiguous buffer, slices with step are not
+            _data = np.ascontiguousarray(self.data[index])  # type: ignore
         else:
             _data = self.data[index.to_numpy(zero_copy_only=False)]  # type: ignore
 
-- 
2.43.0


From 20786a59a9adb6bfceab48b23c87ad889974af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 58/78] fix: falsy callables are called for each row of xlsb
 too

---
 rxls/reader/xlsb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 1fd7ebc..8834668 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -265,7 +265,7 @@ class XlsbWorkbook:  # noqa: D101
                     if 0 < take_rows < row:
                         break
 
-                    if skip_rows <= row and row_callback:
+                    if skip_rows <= row and row_callback is not None:
                         row_callback()
 
                     is_empty_row = True
@@ -273,7 +273,7 @@ class XlsbWorkbook:  # noqa: D101
 
                 if r.rec_id == 402:
                     row += 1
-                    if row_callback:
+                    if row_callback is not None:
                         row_callback()
                     # ? Archive verifies the checksum only when the part is read to the end
                     while io.read(2**16):
-- 
2.43.0


From 2f23cd82444e8847c987d1719cee13c6ba4be56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 59/78] fix: dot segments of relationship targets are resolved

---
 rxls/rels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rxls/rels.py b/rxls/rels.py
index 656b1fb..cdc40b1 100644
--- a/rxls/rels.py
+++ b/rxls/rels.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 
 __all__ = ["Relationship"]
 
+import posixpath
 from typing import IO
 from xml.sax.saxutils import quoteattr
 
@@ -43,9 +44,8 @@ class Relationship:
 
     def part_name(self, base: str = "xl/") -> str:
         """Name of the target part in the archive (absolute targets are relative to its root)."""
-        if self.Target.startswith("/"):
-            return self.Target[1:]
-        return base + self.Target
+        # NOTE: there may be dot segments in the target
+        return posixpath.normpath(posixpath.join("/", base, self.Target)).lstrip("/")
 
     def dump_xml(self, io: IO[bytes]) -> None:
         io.write(
-- 
2.43.0


From 8c942991a67f1b51fbb9e059d7876806a58fc86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 60/78] fix: accelerated scan of a truncated stream ends

---
 rxls/biff.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rxls/biff.py b/rxls/biff.py
index 1e985d1..d6f35b0 100644
--- a/rxls/biff.py
+++ b/rxls/biff.py
@@ -201,7 +201,9 @@ if NUMBA_AVAILABLE:  # noqa: PLR1702
         if only is not None and not isinstance(only, set):
             only = set(only)
 
-        while chunk := chunk + io.read(2**16):
+        # NOTE: incomplete record at the end of the stream is not yielded
+        while block := io.read(2**16):
+            chunk += block
             for _i, _o, _data in scan_chunk(chunk, only):
                 if _i < 0:
                     chunk = chunk[_o:]
-- 
2.43.0


From 3256eb9c227ae3612b8c21d1df05823bbc00b575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 61/78] fix: an empty date format no longer crashes the
 interpreter

---
 rxls/chunk/casts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index a87e32d..5be3fe5 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -708,6 +708,10 @@ else:
             NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01), or `NOT_A_TIME`, when value cannot be parsed
 
         """
+        # NOTE: PyArrow reads out of bounds (and crashes), when format is empty
+        if not format:
+            return np.repeat(NOT_A_TIME, len(arr))
+
         return _timestamps(strptime(arr, format, "ms", True), format)
 
 
-- 
2.43.0


From e0367f56650d38724ef30d0a984bc70fe5394f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 62/78] fix: negative header sizes and skips are refused

---
 rxls/reader/common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index 6008e0e..a1603f9 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -136,6 +136,11 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
     row_callback: Callable[[], None] | None = None,
 ) -> pa.Table:
     """Reader for {} file format"""
+    if isinstance(header, int) and header < 0:
+        raise ValueError("Argument `header` must not be negative")
+    if skip_rows_after_header < 0:
+        raise ValueError("Argument `skip_rows_after_header` must not be negative")
+
     # ! [0]: Testing input data, whether it XLSX or XLSB file:
     with ZipFile(file) as zf:
         content = zf.namelist()
-- 
2.43.0


From 5534b3b0c98cfa3ef2622f44d8ed482e258ba960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 63/78] fix: fractional skips after the header are refused

---
 rxls/reader/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index a1603f9..2c93463 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -5,6 +5,7 @@ __all__ = ["read"]
 import re
 from contextlib import closing
 from functools import reduce
+from operator import index
 from typing import TYPE_CHECKING
 from zipfile import ZipFile
 
@@ -138,7 +139,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
     """Reader for {} file format"""
     if isinstance(header, int) and header < 0:
         raise ValueError("Argument `header` must not be negative")
-    if skip_rows_after_header < 0:
+    if index(skip_rows_after_header) < 0:
         raise ValueError("Argument `skip_rows_after_header` must not be negative")
 
     # ! [0]: Testing input data, whether it XLSX or XLSB file:
-- 
2.43.0


From ed4feb1f88682cec5ccac9e462f943e650112853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 64/78] fix: repeated header names take linear time

---
 rxls/reader/common.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index 2c93463..b68ade3 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -56,18 +56,21 @@ def __make_header(
             else:
                 hdrs.append("Unnamed")
 
-    result_hdrs = []
+    # NOTE: there may be thousands of equal names, so the tried suffixes are not tried again
+    result_hdrs = {}
+    suffixes = {}
 
     for hdr in hdrs:
         n = hdr
-        i = 1
+        i = suffixes.get(hdr, 1)
         while n in result_hdrs:
             n = f"{hdr}.{i}"
             i += 1
 
-        result_hdrs.append(n)
+        suffixes[hdr] = i
+        result_hdrs[n] = None
 
-    return result_hdrs
+    return list(result_hdrs)
 
 
 def __find_header(
-- 
2.43.0


From bccd11503a5c8a276a70135120ab29de8784b3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 65/78] fix: custom formats and styles are matched in linear
 time

---
 rxls/reader/xlsb.py | 8 ++++++--
 rxls/reader/xlsx.py | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 8834668..6bfabe3 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -177,10 +177,14 @@ class XlsbWorkbook:  # noqa: D101
             }
 
             # ! [2]: Check, for each format, that it is temporal. Add XF IDs of BrtXFs using it to result.
+            # NOTE: there may be thousands of styles and formats
+            xf_ids: dict[bytes, list[bytes]] = {}
+            for x, y in xfs.items():
+                xf_ids.setdefault(y, []).append(x)
+
             for f_id, fmt in fms.items():
-                xf_ids = [x for x, y in xfs.items() if y == f_id]
                 if re_dt.search(re_xt.sub("", fmt)):
-                    ret.update(xf_ids)
+                    ret.update(xf_ids.get(f_id, []))
 
             # ! [3]: Add to result each BrtXF, where FmtId in date/time/duration builtin formats
             ret.update(
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 8435d97..2fddd54 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -284,8 +284,13 @@ class XlsxWorkbook:  # noqa: D101
 
             parser.ParseFile(io)
 
+        # NOTE: there may be thousands of styles and formats
+        xf_ids: dict[str, list[str]] = {}
+        for x, y in xfs.items():
+            xf_ids.setdefault(y, []).append(x)
+
         for f_id, fmt in fms.items():
-            xf_id = [x for x, y in xfs.items() if y == f_id]
+            xf_id = xf_ids.get(f_id, [])
             # NOTE: `.00` may be fraction of seconds too
             if re_dt.search(re_xt.sub("", fmt)):
                 ret_temporal.update(xf_id)
-- 
2.43.0


From f40aaf4720485b554c1a4f821741e256fd9d4772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:59 +0000
Subject: [PATCH 66/78] fix: a reopened workbook reads the current file

---
 rxls/reader/xlsb.py | 4 ++++
 rxls/reader/xlsx.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 6bfabe3..116bb97 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -94,6 +94,10 @@ class XlsbWorkbook:  # noqa: D101
         self.null_shared: set[bytes] = set()
 
     def __enter__(self) -> Self:
+        # NOTE: file may be changed since it was opened before
+        for x in ("sheets", "shared", "styles"):
+            self.__dict__.pop(x, None)
+        self.null_shared.clear()
         self.zf = ZipFile(self.__file).__enter__()
         if "xl/workbook.bin" not in self.zf.namelist():
             raise AssertionError("Incorrect xlsb file")
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 2fddd54..f135dad 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -139,6 +139,10 @@ class XlsxWorkbook:  # noqa: D101
         self.null_shared: set[str] = set()
 
     def __enter__(self) -> Self:
+        # NOTE: file may be changed since it was opened before
+        for x in ("sheets", "shared", "styles"):
+            self.__dict__.pop(x, None)
+        self.null_shared.clear()
         self.zf = ZipFile(self.__file).__enter__()
         if "xl/workbook.xml" not in self.zf.namelist():
             raise AssertionError("Invalid xlsx file")
-- 
2.43.0


From d8117a80b08c8ea183e5c2d8b2fa3f322308e761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 67/78] fix: dates before 1970 and midnight of 1970-01-02 have
 a date part

---
 rxls/chunk/casts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 5be3fe5..51a8485 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -226,7 +226,7 @@ def dt_has_d(arr: NDArray[np.int64]) -> np.bool_:
         Have any of this timestamps date part or not
 
     """
-    return np.any(arr > np.uint64(86_400_000))
+    return np.any((arr < np.int64(0)) | (arr >= np.int64(86_400_000)))
 
 
 if NUMBA_AVAILABLE:
-- 
2.43.0


From 26913fef4d79dfa6e21b45220944be54d15eb6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 68/78] fix: a slice of an Arrow array becomes a numpy array of
 that slice

---
 rxls/chunk/casts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 51a8485..b30b864 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -472,7 +472,8 @@ def _unsafe_array(arr: pa.Array, dtype: type[NT]) -> NDArray[NT]:
         Numpy array of expected dtype
 
     """
-    return np.frombuffer(arr.buffers()[-1], dtype)  # type: ignore
+    # NOTE: slices share the buffer of the whole array
+    return np.frombuffer(arr.buffers()[-1], dtype)[arr.offset :][: len(arr)]  # type: ignore
 
 
 def _unsafe_arrow(
-- 
2.43.0


From 3149b4d94de549325d085173818fe3c1500d4e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 69/78] fix: Arrow booleans become numpy booleans in order, for
 any length and slice

---
 rxls/chunk/casts.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index b30b864..affff23 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -603,9 +603,12 @@ def _unsafe_bool_arrow_to_numpy(arr: pa.BooleanArray) -> NDArray[np.bool_]:
         Output numpy boolean array
 
     """
-    return np.unpackbits(np.frombuffer(arr.buffers()[-1], np.uint8))[-len(arr) :][  # type: ignore
-        ::-1
-    ].view(np.bool_)
+    # NOTE: slices share the bitmask of the whole array
+    return np.unpackbits(
+        np.frombuffer(arr.buffers()[-1], np.uint8),  # type: ignore
+        count=arr.offset + len(arr),
+        bitorder="little",
+    )[arr.offset :].view(np.bool_)
 
 
 def _unsafe_strings_to_array(
-- 
2.43.0


From 7964baa090f27451b50ad8b3d7d33af257f3e7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 70/78] fix: numbers that are no instants leave a date column
 texts

---
 rxls/chunk/chunk.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index 037601f..d135eda 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -48,6 +48,9 @@ F__8 = pa.float64()
 I__8 = pa.int64()
 T_MS = pa.timestamp("ms")
 
+MAX_DAYS = 1e11
+"Milliseconds in this count of days (and more) are out of int64 range"
+
 
 def null_slice(x: int, index: slice) -> int:
     return len(range(x)[index])
@@ -222,6 +225,10 @@ class chunk:  # noqa: D101, N801
         if self.type & TYPE_NUMERIC:
             if self.type & REPR_TEMPORAL:
                 return self
+            # NOTE: not each number is an instant
+            is_rk = self.type & REPR_RKNUMBER and not self.type & REPR_PREPARED
+            if not np.all(np.abs(rk_to_f8(self.data) if is_rk else self.data) < MAX_DAYS):  # type: ignore
+                raise pa.ArrowInvalid("Number cannot be represented as timestamp")
             if self.type & REPR_PREPARED:
                 return chunk(self.data, TYPE_NUMERIC | REPR_TEMPORAL, self.size)
             return chunk(self.data, self.type | REPR_TEMPORAL, self.size)
@@ -470,7 +477,10 @@ class chunk:  # noqa: D101, N801
             if conf_to_datetime:
                 if nums_idx:
                     for i in nums_idx:
-                        chunks[i] = chunks[i].as_temporal()
+                        try:
+                            chunks[i] = chunks[i].as_temporal()
+                        except pa.ArrowInvalid:  # noqa: PERF203
+                            utf8_fallback = True
                 if utf8_idx:
                     for i in utf8_idx:
                         try:
-- 
2.43.0


From e6cb95b357ae0116dc0b8a62bc8b769eec22e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 71/78] fix: many skipped columns or filter positions do not
 make reading quadratic

---
 rxls/reader/common.py | 3 ++-
 rxls/reader/xlsb.py   | 4 ++++
 rxls/reader/xlsx.py   | 4 ++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index b68ade3..f90bc6d 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -229,10 +229,11 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
             ]
         elif isinstance(row_filters, list):
             if all(isinstance(x, int) for x in row_filters):
+                positions = frozenset(row_filters)
                 filters = [
                     columns[x]
                     for i, x in enumerate(sorted(columns))
-                    if i in row_filters
+                    if i in positions
                 ]
             elif all(isinstance(x, str) for x in row_filters):
                 filters = [
diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 116bb97..4eeac4f 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -237,6 +237,10 @@ class XlsbWorkbook:  # noqa: D101
 
         if take_rows:
             take_rows += skip_rows
+        if isinstance(skip_cols, (list, tuple)):
+            # NOTE: this is looked up for every cell
+            skip_cols = frozenset(skip_cols)
+
         row = -1
         # NOTE: number of next row in the sheet (rows without cells may be omitted)
         sheet_row = 0
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index f135dad..14a53ee 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -357,6 +357,10 @@ class XlsxWorkbook:  # noqa: D101
         if take_rows:
             take_rows += skip_rows
 
+        if isinstance(skip_cols, (list, tuple)):
+            # NOTE: this is looked up for every cell
+            skip_cols = frozenset(skip_cols)
+
         def worker(
             io: IO[bytes],
             styles: dict[str, int],
-- 
2.43.0


From 4f01d8465cbda929905bc5775066eacdb36eee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 72/78] fix: parts whose element names have a prefix (<x:row>)
 are read as empty ones

---
 rxls/reader/xlsx.py | 16 ++++++++++------
 rxls/rels.py        | 37 ++++++++++++++++++++++++++++++++++---
 2 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 14a53ee..9a8cf98 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -24,7 +24,7 @@ from ..constants import (
     TYPE_STRING,
 )
 from ..core import NUMBA_AVAILABLE
-from ..rels import Relationship
+from ..rels import Relationship, parse_xml
 
 if TYPE_CHECKING:
     from pathlib import Path
@@ -171,11 +171,15 @@ class XlsxWorkbook:  # noqa: D101
             def st_handler(tag: str, attr: dict[str, str]) -> None:
                 nonlocal rId_to_name
                 if tag == "sheet":
-                    rId_to_name[attr["r:id"]] = attr["name"]
+                    # NOTE: prefix of this namespace may be any
+                    r_id = attr.get("r:id") or next(
+                        y for x, y in attr.items() if x.endswith(":id")
+                    )
+                    rId_to_name[r_id] = attr["name"]
 
             parser = ParserCreate()
             parser.StartElementHandler = st_handler
-            parser.ParseFile(io)
+            parse_xml(parser, io)
         # NOTE: there may be sheets of other kinds (chartsheets, dialogsheets)
         return {
             rId_to_name[x]: rId_to_file[x] for x in rId_to_name if x in rId_to_file
@@ -235,7 +239,7 @@ class XlsxWorkbook:  # noqa: D101
             parser.CharacterDataHandler = cell_th
             parser.buffer_text = True
 
-            parser.ParseFile(io)
+            parse_xml(parser, io)
 
         return ret.finish().cast("large_string")
 
@@ -286,7 +290,7 @@ class XlsxWorkbook:  # noqa: D101
             parser.EndElementHandler = cell_eh
             parser.buffer_text = True
 
-            parser.ParseFile(io)
+            parse_xml(parser, io)
 
         # NOTE: there may be thousands of styles and formats
         xf_ids: dict[str, list[str]] = {}
@@ -572,7 +576,7 @@ class XlsxWorkbook:  # noqa: D101
                 if callback is not None:
                     callback()
 
-                parser.ParseFile(io)
+                parse_xml(parser, io)
             except StopParsing:
                 pass
             except BaseException as e:  # noqa: BLE001
diff --git a/rxls/rels.py b/rxls/rels.py
index cdc40b1..a05e8f2 100644
--- a/rxls/rels.py
+++ b/rxls/rels.py
@@ -1,19 +1,50 @@
 # ruff: noqa:D101, D102
 from __future__ import annotations
 
-__all__ = ["Relationship"]
+__all__ = ["Relationship", "parse_xml"]
 
 import posixpath
-from typing import IO
+from typing import IO, TYPE_CHECKING
 from xml.sax.saxutils import quoteattr
 
 from pyexpat import ParserCreate
 
 from .core import as_dataclass
 
+if TYPE_CHECKING:
+    from pyexpat import XMLParserType
+
 RELS_NS = "http://schemas.openxmlformats.org/package/2006/relationships"
 
 
+def parse_xml(parser: XMLParserType, io: IO[bytes]) -> None:
+    """Parse the part, passing names of elements to handlers without the prefix, that is used by its root element."""
+    start = parser.StartElementHandler
+    end = parser.EndElementHandler
+
+    def root_sh(tag: str, attrs: dict[str, str]) -> None:
+        prefix, sep, _ = tag.partition(":")
+
+        if sep:
+            prefix += sep
+            length = len(prefix)
+
+            # NOTE: elements without this prefix are of other namespaces
+            def local(name: str) -> str:
+                return name[length:] if name.startswith(prefix) else f":{name}"
+
+            parser.StartElementHandler = lambda name, attrs: start(local(name), attrs)
+            if end is not None:
+                parser.EndElementHandler = lambda name: end(local(name))
+        else:
+            parser.StartElementHandler = start
+
+        parser.StartElementHandler(tag, attrs)
+
+    parser.StartElementHandler = root_sh
+    parser.ParseFile(io)
+
+
 @as_dataclass
 class Relationship:
     Id: str
@@ -38,7 +69,7 @@ class Relationship:
 
         parser = ParserCreate()
         parser.StartElementHandler = rs_handler
-        parser.ParseFile(io)
+        parse_xml(parser, io)
 
         return ret
 
-- 
2.43.0


From 9210cba06b20bd092388c9f56711588fc97c3ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:19 +0000
Subject: [PATCH 73/78] fix: a file of the other kind stays open after it was
 refused

---
 rxls/reader/xlsb.py | 1 +
 rxls/reader/xlsx.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 4eeac4f..b2e48dd 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -100,6 +100,7 @@ class XlsbWorkbook:  # noqa: D101
         self.null_shared.clear()
         self.zf = ZipFile(self.__file).__enter__()
         if "xl/workbook.bin" not in self.zf.namelist():
+            self.zf.close()
             raise AssertionError("Incorrect xlsb file")
         return self
 
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 9a8cf98..a6777a8 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -145,6 +145,7 @@ class XlsxWorkbook:  # noqa: D101
         self.null_shared.clear()
         self.zf = ZipFile(self.__file).__enter__()
         if "xl/workbook.xml" not in self.zf.namelist():
+            self.zf.close()
             raise AssertionError("Invalid xlsx file")
         return self
 
-- 
2.43.0


From 20f04dd6ee65d4ef2218e6767f285b672f14f670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:47 +0000
Subject: [PATCH 74/78] fix: number formats of differential styles replace
 those of cells

---
 rxls/reader/xlsx.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index a6777a8..9a4d446 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -255,6 +255,7 @@ class XlsxWorkbook:  # noqa: D101
 
         xfs_id = 0
         is_cell_xfs = False
+        is_num_fmts = False
         xfs: dict[str, str] = {}
 
         fms: dict[str, str] = {}
@@ -266,12 +267,16 @@ class XlsxWorkbook:  # noqa: D101
         with self.zf.open("xl/styles.xml") as io:
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
-                nonlocal xfs, fms, xfs_id, is_cell_xfs
+                nonlocal xfs, fms, xfs_id, is_cell_xfs, is_num_fmts
 
                 if tag == "cellXfs":
                     is_cell_xfs = True
 
-                elif tag == "numFmt":
+                elif tag == "numFmts":
+                    is_num_fmts = True
+
+                # NOTE: differential formats have number formats of their own
+                elif tag == "numFmt" and is_num_fmts:
                     fms[attrs["numFmtId"]] = re_section.match(
                         attrs["formatCode"],
                     ).group()  # type: ignore
@@ -282,9 +287,11 @@ class XlsxWorkbook:  # noqa: D101
                     xfs_id += 1
 
             def cell_eh(tag: str) -> None:
-                nonlocal is_cell_xfs
+                nonlocal is_cell_xfs, is_num_fmts
                 if tag == "cellXfs":
                     is_cell_xfs = False
+                elif tag == "numFmts":
+                    is_num_fmts = False
 
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
-- 
2.43.0


From 9125d7871d47300f711cb74b3e8d4d4407618883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 75/78] fix: shared strings and styles are found by the
 relationships of the workbook

---
 rxls/reader/xlsb.py | 16 +++++++++++-----
 rxls/reader/xlsx.py | 16 +++++++++++-----
 rxls/rels.py        | 21 ++++++++++++++++++++-
 3 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index b2e48dd..aea02cb 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -23,7 +23,7 @@ from ..constants import (
     TYPE_STRING,
 )
 from ..core import u2_p, u4_p, u4_u
-from ..rels import Relationship
+from ..rels import Relationship, related_part
 
 if TYPE_CHECKING:
     from pathlib import Path
@@ -137,11 +137,14 @@ class XlsbWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        part = related_part(
+            self.zf, "xl/_rels/workbook.bin.rels", "sharedStrings", "xl/sharedStrings.bin"
+        )
         # NOTE: this part is optional
-        if "xl/sharedStrings.bin" not in self.zf.namelist():
+        if part is None:
             return pa.array([], pa.large_string())
 
-        with self.zf.open("xl/sharedStrings.bin") as io:
+        with self.zf.open(part) as io:
             return pa.array(
                 (self.null_shared.add(u4_p(i)) or y)
                 if self.null_values(
@@ -158,11 +161,14 @@ class XlsbWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        part = related_part(
+            self.zf, "xl/_rels/workbook.bin.rels", "styles", "xl/styles.bin"
+        )
         # NOTE: this part is optional
-        if "xl/styles.bin" not in self.zf.namelist():
+        if part is None:
             return frozenset()
 
-        with self.zf.open("xl/styles.bin") as io:
+        with self.zf.open(part) as io:
             ret: set[bytes] = set()
             # ! [0]: Get full styles list from styles.bin (3-bytes little-endian XF ID and 2-bytes little-endian FMT ID)
             xfs: dict[bytes, bytes] = {
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 9a4d446..bc4bde5 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -24,7 +24,7 @@ from ..constants import (
     TYPE_STRING,
 )
 from ..core import NUMBA_AVAILABLE
-from ..rels import Relationship, parse_xml
+from ..rels import Relationship, parse_xml, related_part
 
 if TYPE_CHECKING:
     from pathlib import Path
@@ -194,11 +194,14 @@ class XlsxWorkbook:  # noqa: D101
 
         ret: pyarrow.lib.StringBuilder = pyarrow.lib.StringBuilder()
 
+        part = related_part(
+            self.zf, "xl/_rels/workbook.xml.rels", "sharedStrings", "xl/sharedStrings.xml"
+        )
         # NOTE: this part is optional
-        if "xl/sharedStrings.xml" not in self.zf.namelist():
+        if part is None:
             return pa.array([], pa.large_string())
 
-        with self.zf.open("xl/sharedStrings.xml") as io:
+        with self.zf.open(part) as io:
             # NOTE: text of one item may be split by runs and by parser buffer
             parts: list[str] = []
             l_part = 0
@@ -260,11 +263,14 @@ class XlsxWorkbook:  # noqa: D101
 
         fms: dict[str, str] = {}
 
+        part = related_part(
+            self.zf, "xl/_rels/workbook.xml.rels", "styles", "xl/styles.xml"
+        )
         # NOTE: this part is optional
-        if "xl/styles.xml" not in self.zf.namelist():
+        if part is None:
             return {}
 
-        with self.zf.open("xl/styles.xml") as io:
+        with self.zf.open(part) as io:
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
                 nonlocal xfs, fms, xfs_id, is_cell_xfs, is_num_fmts
diff --git a/rxls/rels.py b/rxls/rels.py
index a05e8f2..81f5bf2 100644
--- a/rxls/rels.py
+++ b/rxls/rels.py
@@ -1,7 +1,7 @@
 # ruff: noqa:D101, D102
 from __future__ import annotations
 
-__all__ = ["Relationship", "parse_xml"]
+__all__ = ["Relationship", "parse_xml", "related_part"]
 
 import posixpath
 from typing import IO, TYPE_CHECKING
@@ -12,6 +12,8 @@ from pyexpat import ParserCreate
 from .core import as_dataclass
 
 if TYPE_CHECKING:
+    from zipfile import ZipFile
+
     from pyexpat import XMLParserType
 
 RELS_NS = "http://schemas.openxmlformats.org/package/2006/relationships"
@@ -86,3 +88,20 @@ class Relationship:
                 f" Target={quoteattr(self.Target)}/>"
             ).encode(),
         )
+
+
+def related_part(zf: ZipFile, rels: str, kind: str, default: str) -> str | None:
+    """Name of the part of given kind, `None` if there is no such part in the archive (names of parts are case-insensitive)."""
+    names = zf.namelist()
+    lower = {x.lower(): x for x in names}
+
+    with zf.open(rels) as io:
+        targets = [x.part_name() for x in Relationship.scan_xml(io) if x.Type == kind]
+
+    for name in (*targets, default):
+        if name in names:
+            return name
+        if name.lower() in lower:
+            return lower[name.lower()]
+
+    return None
-- 
2.43.0


From e9427ada69a78a8342dc6460f899dc5c3796deee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:54 +0000
Subject: [PATCH 76/78] fix: cells with rich text (BrtCellRString) are left out
 of the table

---
 rxls/reader/xlsb.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index aea02cb..228a6f6 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -10,7 +10,7 @@ from zipfile import ZipFile
 
 import pyarrow as pa
 
-from ..biff import scan_biff
+from ..biff import record, scan_biff
 from ..biff_recs import BrtBundleSh
 from ..cell import cell
 from ..constants import (
@@ -264,8 +264,9 @@ class XlsbWorkbook:  # noqa: D101
             # * 8: BrtFmlaString    | TYPE_STRING | REPR_PREPARED
             # * 9: BrtFmlaNum       | TYPE_NUMERIC | [REPR_TEMPORAL | REPR_PREPARED]
             # * 10: BrtFmlaBool     | TYPE_NUMERIC | REPR_BOOLEAN
+            # * 62: BrtCellRString  | TYPE_STRING | REPR_PREPARED
             # * 402: BrtEndSheetData
-            for r in scan_biff(io, {0, 2, 4, 5, 6, 7, 8, 9, 10, 402}):
+            for r in scan_biff(io, {0, 2, 4, 5, 6, 7, 8, 9, 10, 62, 402}):
                 if not r.rec_id:
                     # ? Skipped rows are always counted
                     if not is_empty_row or take_rows_non_empty or row < skip_rows:
@@ -303,6 +304,10 @@ class XlsbWorkbook:  # noqa: D101
                 if skip_rows > row:
                     continue
 
+                if r.rec_id == 62:
+                    # NOTE: there is one byte of flags before the text
+                    r = record(6, r.data[:8] + r.data[9:])  # noqa: PLW2901
+
                 (col,) = u4_u(r.data[:4])
 
                 if skip_cols and col in skip_cols:
-- 
2.43.0


From e6f4f14690a2601fa4e4c5f93ca04dc247934371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:26 +0000
Subject: [PATCH 77/78] fix: cells without a column of their own (BrtShort*)
 are left out of the table

---
 rxls/reader/xlsb.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 228a6f6..4f8dfba 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -63,6 +63,9 @@ TEMPORAL_STYLES = frozenset(
 
 MAX_ROWS = 0x100000
 
+# NOTE: there is no column in these records (BrtShort*), such a cell is next to the previous one
+SHORT_CELLS = {12: 1, 13: 2, 14: 3, 15: 4, 16: 5, 17: 6, 18: 7}
+
 
 class XlsbWorkbook:  # noqa: D101
     __slots__ = ("__dict__", "__file", "null_shared", "null_values", "zf")
@@ -252,6 +255,7 @@ class XlsbWorkbook:  # noqa: D101
         # NOTE: number of next row in the sheet (rows without cells may be omitted)
         sheet_row = 0
         is_empty_row = False
+        col = -1
 
         with self.zf.open(sheet_path) as io:
             # ? Used record IDs:
@@ -264,9 +268,11 @@ class XlsbWorkbook:  # noqa: D101
             # * 8: BrtFmlaString    | TYPE_STRING | REPR_PREPARED
             # * 9: BrtFmlaNum       | TYPE_NUMERIC | [REPR_TEMPORAL | REPR_PREPARED]
             # * 10: BrtFmlaBool     | TYPE_NUMERIC | REPR_BOOLEAN
+            # * 1, 3, 11: BrtCellBlank, BrtCellError, BrtFmlaError (no value)
+            # * 12-18: BrtShort*      | same as for 1-7
             # * 62: BrtCellRString  | TYPE_STRING | REPR_PREPARED
             # * 402: BrtEndSheetData
-            for r in scan_biff(io, {0, 2, 4, 5, 6, 7, 8, 9, 10, 62, 402}):
+            for r in scan_biff(io, {*range(19), 62, 402}):
                 if not r.rec_id:
                     # ? Skipped rows are always counted
                     if not is_empty_row or take_rows_non_empty or row < skip_rows:
@@ -307,9 +313,14 @@ class XlsbWorkbook:  # noqa: D101
                 if r.rec_id == 62:
                     # NOTE: there is one byte of flags before the text
                     r = record(6, r.data[:8] + r.data[9:])  # noqa: PLW2901
+                elif r.rec_id in SHORT_CELLS:
+                    r = record(SHORT_CELLS[r.rec_id], u4_p(col + 1) + r.data)  # noqa: PLW2901
 
                 (col,) = u4_u(r.data[:4])
 
+                if r.rec_id in {1, 3, 11}:
+                    continue
+
                 if skip_cols and col in skip_cols:
                     continue
 
-- 
2.43.0


From 4ead4409f40a8c559d56be94b579f985ebc22380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:04 +0000
Subject: [PATCH 78/78] fix: directory of an XLSB workbook took quadratic time
 in count of sheets

---
 rxls/reader/xlsb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 4f8dfba..01c53fe 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -122,11 +122,14 @@ class XlsbWorkbook:  # noqa: D101
         with self.zf.open("xl/_rels/workbook.bin.rels", "r") as io:
             wb_rels: list[Relationship] = Relationship.scan_xml(io)
 
+        # NOTE: there may be thousands of sheets
+        rId_to_rel = {x.Id: x for x in reversed(wb_rels)}  # noqa: N806
+
         with self.zf.open("xl/workbook.bin") as io:
             for _sheet in scan_biff(io, {412}):
                 _sheet = BrtBundleSh.loadr(_sheet)
 
-                rel = next(x for x in wb_rels if x.Id == _sheet.strRelID.value)
+                rel = rId_to_rel[_sheet.strRelID.value]
 
                 # NOTE: there may be sheets of other kinds (chartsheets, dialogsheets)
                 if rel.Type == "worksheet":
-- 
2.43.0

