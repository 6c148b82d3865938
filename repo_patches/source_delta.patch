From 8f755e35573c5a32f118575819e71c73e106548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 01/29] fix: cell_xf_index ignored row and column defaults for
 negative indexes

---
 xlrd/sheet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index a831398..c7a5d0e 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -439,6 +439,11 @@ class Sheet(BaseObject):
         if xfx > -1:
             self._xf_index_stats[0] += 1
             return xfx
+        # The row and column maps are keyed on non-negative indexes only
+        if colx < 0:
+            colx += len(self._cell_xf_indexes[rowx])
+        if rowx < 0:
+            rowx += self.nrows
         # Check for a row xf_index
         try:
             xfx = self.rowinfo_map[rowx].xf_index
-- 
2.43.0


From d250dd94376e4930e1d5e1e957d77e3fd5287a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 02/29] fix: formula string results with characters beyond the
 BMP, multi-byte characters or no options byte were refused

---
 xlrd/sheet.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index c7a5d0e..ef7c57d 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1520,18 +1520,27 @@ class Sheet(BaseObject):
         offset = lenlen
         if bv < 80:
             enc = bk.encoding or bk.derive_encoding()
-        nchars_found = 0
-        result = UNICODE_LITERAL("")
+        elif not nchars_expected and not data[offset:]:
+            # Zero-length string with no options byte
+            return UNICODE_LITERAL("")
+        else:
+            enc = "utf_16_le"
+        # The character count is denominated in stored units: 16-bit units in
+        # BIFF8 (so a surrogate pair counts as 2), bytes in earlier versions.
+        # A split may fall inside a character, so decode when all is gathered.
+        unit_size = (bv >= 80) + 1
+        raw = b""
         while 1:
             if bv >= 80:
                 flag = BYTES_ORD(data[offset]) & 1
-                enc = ("latin_1", "utf_16_le")[flag]
                 offset += 1
-            chunk = unicode(data[offset:], enc)
-            result += chunk
-            nchars_found += len(chunk)
+            chunk = data[offset:]
+            if bv >= 80 and not flag:
+                chunk = unicode(chunk, "latin_1").encode(enc)
+            raw += chunk
+            nchars_found = len(raw) // unit_size
             if nchars_found == nchars_expected:
-                return result
+                return unicode(raw, enc)
             if nchars_found > nchars_expected:
                 msg = ("STRING/CONTINUE: expected %d chars, found %d"
                     % (nchars_expected, nchars_found))
-- 
2.43.0


From 53754f426c97d3e25528c58f1c1f2a991c55b886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 03/29] fix: shared strings with a surrogate pair split over
 records, or a phonetic block spanning several records, were misread or
 refused

---
 xlrd/book.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 6876a3e..2e4e5cf 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1414,6 +1414,7 @@ def unpack_SST_table(datatab, nstrings):
             phosz = local_unpack('<i', data[pos:pos+4])[0]
             pos += 4
         accstrg = UNICODE_LITERAL('')
+        accraw = b'' # UTF-16-LE data of a string that is split over records
         charsgot = 0
         while 1:
             charsneed = nchars - charsgot
@@ -1422,22 +1423,26 @@ def unpack_SST_table(datatab, nstrings):
                 charsavail = local_min((datalen - pos) >> 1, charsneed)
                 rawstrg = data[pos:pos+2*charsavail]
                 # if DEBUG: print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                try:
-                    accstrg += unicode(rawstrg, "utf_16_le")
-                except:
-                    # print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                    # Probable cause: dodgy data e.g. unfinished surrogate pair.
+                if charsavail == nchars:
+                    # Decoding may fail on dodgy data e.g. unfinished surrogate pair.
                     # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
                     # unichr(i) for i in range(0x100000)
                     # so this will include 0xD800 etc
-                    raise
+                    accstrg = unicode(rawstrg, "utf_16_le")
+                else:
+                    # The split may fall inside a surrogate pair,
+                    # so don't decode until all of the string is available.
+                    accraw += rawstrg
                 pos += 2*charsavail
             else:
                 # Note: this is COMPRESSED (not ASCII!) encoding!!!
                 charsavail = local_min(datalen - pos, charsneed)
                 rawstrg = data[pos:pos+charsavail]
                 # if DEBUG: print "SST CMPRSD: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                accstrg += unicode(rawstrg, latin_1)
+                if charsavail == nchars:
+                    accstrg = unicode(rawstrg, latin_1)
+                else:
+                    accraw += unicode(rawstrg, latin_1).encode("utf_16_le")
                 pos += charsavail
             charsgot += charsavail
             if charsgot == nchars:
@@ -1447,6 +1452,8 @@ def unpack_SST_table(datatab, nstrings):
             datalen = len(data)
             options = local_BYTES_ORD(data[0])
             pos = 1
+        if accraw:
+            accstrg = unicode(accraw, "utf_16_le")
 
         if rtcount:
             runs = []
@@ -1461,8 +1468,9 @@ def unpack_SST_table(datatab, nstrings):
             richtext_runs[len(strings)] = runs
 
         pos += phosz # size of the phonetic stuff to skip
-        if pos >= datalen:
+        while pos >= datalen:
             # adjust to correct position in next record
+            # (the phonetic stuff may span several records)
             pos = pos - datalen
             datainx += 1
             if datainx < ndatas:
@@ -1470,5 +1478,6 @@ def unpack_SST_table(datatab, nstrings):
                 datalen = len(data)
             else:
                 assert _unused_i == nstrings - 1
+                break
         strappend(accstrg)
     return strings, richtext_runs
-- 
2.43.0


From 4d5d5596ed4d8fec645cad66cb58d2ac9855eccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:34 +0000
Subject: [PATCH 04/29] fix: a stream whose directory entry index is 250 or
 more could not be read

---
 xlrd/compdoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 412a89e..7e67d37 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -120,7 +120,7 @@ class CompDoc(object):
                 % (len(mem), sec_size), file=logfile)
         self.mem_data_secs = mem_data_secs # use for checking later
         self.mem_data_len = mem_data_len
-        seen = self.seen = array.array('B', [0]) * mem_data_secs
+        seen = self.seen = array.array('i', [0]) * mem_data_secs # holds DID+6, not limited to 255
 
         if DEBUG:
             print('sec sizes', ssz, sssz, sec_size, self.short_sec_size, file=logfile)
-- 
2.43.0


From 166e3cce76f64f7c90adaed51585eab6bfe9cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:04 +0000
Subject: [PATCH 05/29] fix: a looping short-stream sector chain never ended,
 and short sectors beyond the container were silently read as nothing

---
 xlrd/compdoc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 7e67d37..e83f4a3 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -310,11 +310,17 @@ class CompDoc(object):
                     if self.seen[s]:
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
                     self.seen[s] = seen_id
+                elif len(sectors) >= len(sat):
+                    # visited more sectors than there are
+                    raise CompDocError("%s corruption: sector chain contains a loop" % name)
                 start_pos = base + s * sec_size
                 grab = sec_size
                 if grab > todo:
                     grab = todo
                 todo -= grab
+                if grab and start_pos >= len(mem):
+                    raise CompDocError(
+                        "OLE2 stream %r: sector %d is beyond the end of the data" % (name, s))
                 sectors.append(mem[start_pos:start_pos+grab])
                 try:
                     s = sat[s]
-- 
2.43.0


From 06f25dfcead42ef529afb9f258d72febac71403e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:53 +0000
Subject: [PATCH 06/29] fix: rangename2d returned None in R1C1 style

---
 xlrd/formula.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 00e4464..76c2f67 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -2108,8 +2108,6 @@ def colname(colx):
 
 def rangename2d(rlo, rhi, clo, chi, r1c1=0):
     """ ``(5, 20, 7, 10)`` => ``'$H$6:$J$20'`` """
-    if r1c1:
-        return
     if rhi == rlo+1 and chi == clo+1:
         return cellnameabs(rlo, clo, r1c1)
     return "%s:%s" % (cellnameabs(rlo, clo, r1c1), cellnameabs(rhi-1, chi-1, r1c1))
-- 
2.43.0


From f1f171ee73f801a5e4dbe8c70984db530a0eedb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:28 +0000
Subject: [PATCH 07/29] fix: a hyperlink whose URL has a character beyond the
 BMP made opening fail

---
 xlrd/sheet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index ef7c57d..3706e7d 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1797,7 +1797,8 @@ class Sheet(BaseObject):
                 endpos = h.url_or_path.find('\x00')
                 if DEBUG: print("endpos=%d" % endpos, file=self.logfile)
                 h.url_or_path = h.url_or_path[:endpos]
-                true_nbytes = 2 * (endpos + 1)
+                # characters beyond the BMP occupy 4 bytes
+                true_nbytes = len(h.url_or_path.encode('UTF-16le')) + 2
                 offset += true_nbytes
                 extra_nbytes = nbytes - true_nbytes
                 extra_data = data[offset:offset + extra_nbytes]
-- 
2.43.0


From c78da7c1be764017d7e3ad837cca5ee41a2b6b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:55 +0000
Subject: [PATCH 08/29] fix: the comment of object 0 was lost, and text without
 a preceding object made opening fail

---
 xlrd/sheet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 3706e7d..5d49090 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -812,6 +812,7 @@ class Sheet(BaseObject):
         do_sst_rich_text = fmt_info and bk._rich_text_runlist_map
         rowinfo_sharing_dict = {}
         txos = {}
+        saved_obj_id = None
         eof_found = 0
         while 1:
             # if DEBUG: print "SHEET.READ: about to read from position %d" % bk._position
@@ -1125,7 +1126,7 @@ class Sheet(BaseObject):
                 self.handle_msodrawingetc(rc, data_len, data)
             elif rc == XL_TXO:
                 txo = self.handle_txo(data)
-                if txo and saved_obj_id:
+                if txo and saved_obj_id is not None:
                     txos[saved_obj_id] = txo
                     saved_obj_id = None
             elif rc == XL_NOTE:
-- 
2.43.0


From 63b80495e1779509f651860c1c3cbf06cf947930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:17 +0000
Subject: [PATCH 09/29] fix: comment text with a surrogate pair split over two
 records made opening fail

---
 xlrd/sheet.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 5d49090..c90559c 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -2043,7 +2043,7 @@ class Sheet(BaseObject):
             (15, 0x8000, 'secret_edit'),
         ))
         totchars = 0
-        o.text = UNICODE_LITERAL('')
+        rawtext = b''
         while totchars < cchText:
             rc2, data2_len, data2 = self.book.get_record_parts()
             assert rc2 == XL_CONTINUE
@@ -2054,10 +2054,13 @@ class Sheet(BaseObject):
             if nb:
                 assert nchars % 2 == 0
                 nchars //= 2
-            utext, endpos = unpack_unicode_update_pos(data2, 0, known_len=nchars)
-            assert endpos == data2_len
-            o.text += utext
+            # decode only when complete: a surrogate pair may span two records
+            if nb:
+                rawtext += data2[1:]
+            else:
+                rawtext += unicode(data2[1:], 'latin_1').encode('utf_16_le')
             totchars += nchars
+        o.text = unicode(rawtext, 'utf_16_le')
         o.rich_text_runlist = []
         totruns = 0
         while totruns < cbRuns: # counts of BYTES, not runs
-- 
2.43.0


From 2f5b1d54766f907152fc0e550348ea0e1ab4dbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:27 +0000
Subject: [PATCH 10/29] fix: verbose opening of an encrypted workbook whose
 FILEPASS record is short raises XLRDError

---
 xlrd/book.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 2e4e5cf..8ac8440 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -924,10 +924,10 @@ class Book(BaseObject):
             logf = self.logfile
             fprintf(logf, "FILEPASS:\n")
             hex_char_dump(data, 0, len(data), base=0, fout=logf)
-            if self.biff_version >= 80:
+            if self.biff_version >= 80 and len(data) >= 6:
                 kind1, = unpack('<H', data[:2])
                 if kind1 == 0: # weak XOR encryption
-                    key, hash_value = unpack('<HH', data[2:])
+                    key, hash_value = unpack('<HH', data[2:6])
                     fprintf(logf,
                         'weak XOR: key=0x%04x hash=0x%04x\n',
                         key, hash_value)
-- 
2.43.0


From 055914fc0b29dfed20e4bd3ed456850acfe5b594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:42 +0000
Subject: [PATCH 11/29] fix: the option flags of a BIFF2 window record were
 always read as set

---
 xlrd/sheet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index c90559c..da76ba6 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1493,8 +1493,8 @@ class Sheet(BaseObject):
                 elif rc == XL_WINDOW2_B2: # BIFF 2 only
                     attr_names = ("show_formulas", "show_grid_lines", "show_sheet_headers",
                         "panes_are_frozen", "show_zero_values")
-                    for attr, char in zip(attr_names, data[0:5]):
-                        setattr(self, attr, int(char != b'\0'))
+                    for attr, char in zip(attr_names, unpack("<5B", data[0:5])):
+                        setattr(self, attr, int(char != 0))
                     (
                         self.first_visible_rowx, self.first_visible_colx,
                         self.automatic_grid_line_colour,
-- 
2.43.0


From 0e4038f7aad5ad7b84240c3983d7fbf98118ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:19 +0000
Subject: [PATCH 12/29] fix: the user name of an Excel 2, 3 or 4 file without
 other text was left undecoded

---
 xlrd/book.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/book.py b/xlrd/book.py
index 8ac8440..e5fd418 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -729,6 +729,8 @@ class Book(BaseObject):
         self._sheet_visibility = [0] # one sheet, visible
         self._sheet_list.append(None) # get_sheet updates _sheet_list but needs a None beforehand
         self.get_sheets()
+        if not self.encoding:
+            self.derive_encoding()
 
     def handle_boundsheet(self, data):
         # DEBUG = 1
-- 
2.43.0


From 772bd61d0187a59d11b0088a5107e184e2afc40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:11 +0000
Subject: [PATCH 13/29] fix: a short ARRAY record after a string formula made
 opening an Excel 3 or 4 file fail

---
 xlrd/sheet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index da76ba6..f3c8771 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -960,9 +960,9 @@ class Sheet(BaseObject):
                             if rc2 == XL_STRING or rc2 == XL_STRING_B2:
                                 gotstring = 1
                             elif rc2 == XL_ARRAY:
-                                row1x, rownx, col1x, colnx, array_flags, tokslen = \
-                                    local_unpack("<HHBBBxxxxxH", data2[:14])
                                 if blah_formulas:
+                                    row1x, rownx, col1x, colnx, array_flags, tokslen = \
+                                        local_unpack("<HHBBBxxxxxH", data2[:14])
                                     fprintf(self.logfile, "ARRAY: %d %d %d %d %d\n",
                                         row1x, rownx, col1x, colnx, array_flags)
                                     # dump_formula(bk, data2[14:], tokslen, bv, reldelta=0, blah=1)
-- 
2.43.0


From ff47e505f91f494fa747042a49dae54c3a042b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:34 +0000
Subject: [PATCH 14/29] fix: numbers of an Excel 2, 3 or 4 file without FORMAT
 records were reported as text

---
 xlrd/formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formatting.py b/xlrd/formatting.py
index ca637b8..74fad72 100644
--- a/xlrd/formatting.py
+++ b/xlrd/formatting.py
@@ -1036,7 +1036,7 @@ def xf_epilogue(self):
             fmt = self.format_map[xf.format_key]
             cellty = _cellty_from_fmtty[fmt.type]
         except KeyError:
-            cellty = XL_CELL_TEXT
+            cellty = XL_CELL_NUMBER
         self._xf_index_to_xl_type_map[xf.xf_index] = cellty
         # Now for some assertions etc
         if not self.formatting_info:
-- 
2.43.0


From 4b70dd9f00d246571ecc3e119b3e4018019ca2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:50 +0000
Subject: [PATCH 15/29] fix: inspect_format: empty content is of unknown type,
 not a TypeError

---
 xlrd/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index 84d5f26..cc88657 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -53,7 +53,7 @@ def inspect_format(path=None, content=None):
        The return value can always be looked up in :data:`FILE_FORMAT_DESCRIPTIONS`
        to return a human-readable description of the format found.
     """
-    if content:
+    if content or path is None:
         peek = content[:PEEK_SIZE]
     else:
         path = os.path.expanduser(path)
-- 
2.43.0


From bfe36893f25cdc25bfb7bd93d1612954882a8909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:12 +0000
Subject: [PATCH 16/29] fix: inspect_format: bytes that only look like a zip
 file are of unknown type

---
 xlrd/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index cc88657..9e41c93 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -64,7 +64,11 @@ def inspect_format(path=None, content=None):
         return 'xls'
 
     if peek.startswith(ZIP_SIGNATURE):
-        zf = zipfile.ZipFile(timemachine.BYTES_IO(content) if content else path)
+        try:
+            zf = zipfile.ZipFile(timemachine.BYTES_IO(content) if content else path)
+        except zipfile.BadZipfile:
+            # only looks like the start of a zip file
+            return None
 
         # Workaround for some third party files that use forward slashes and
         # lower case names. We map the expected name in lowercase to the
-- 
2.43.0


From 7f0612cb1ad556021f85f967cf227811393944c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:32 +0000
Subject: [PATCH 17/29] fix: inspect_format: close the zip file

---
 xlrd/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index 9e41c93..bab5588 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -65,7 +65,8 @@ def inspect_format(path=None, content=None):
 
     if peek.startswith(ZIP_SIGNATURE):
         try:
-            zf = zipfile.ZipFile(timemachine.BYTES_IO(content) if content else path)
+            with zipfile.ZipFile(timemachine.BYTES_IO(content) if content else path) as zf:
+                names = zf.namelist()
         except zipfile.BadZipfile:
             # only looks like the start of a zip file
             return None
@@ -74,7 +75,7 @@ def inspect_format(path=None, content=None):
         # lower case names. We map the expected name in lowercase to the
         # actual filename in the zip container.
         component_names = {name.replace('\\', '/').lower(): name
-                           for name in zf.namelist()}
+                           for name in names}
 
         if 'xl/workbook.xml' in component_names:
             return 'xlsx'
-- 
2.43.0


From bd2bda22591668d13a45cc19dd6cd23ec1110d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:18 +0000
Subject: [PATCH 18/29] fix: conditional formats with number format, alignment
 or protection blocks

Their length was not counted, so opening with formatting_info failed.
---
 xlrd/sheet.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index f3c8771..8810352 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1228,19 +1228,14 @@ class Sheet(BaseObject):
                             font_colour_index, font_esc, font_underl,
                             font_style, posture, font_canc, cancellation,
                         )
-                    pos += 118
-                if bord_block:
-                    pos += 8
-                if patt_block:
-                    pos += 4
+                # The formulas come last, after whatever optional data blocks there are.
+                pos = data_len - sz1 - sz2
                 fmla1 = data[pos:pos+sz1]
                 pos += sz1
                 if blah and sz1:
                     fprintf(self.logfile, "*** formula 1:\n")
                     dump_formula(bk, fmla1, sz1, bv, reldelta=0, blah=1)
                 fmla2 = data[pos:pos+sz2]
-                pos += sz2
-                assert pos == data_len
                 if blah and sz2:
                     fprintf(self.logfile, "*** formula 2:\n")
                     dump_formula(bk, fmla2, sz2, bv, reldelta=0, blah=1)
-- 
2.43.0


From 530fdb5618e7d040dd5c7ad17406b4552c0b4fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:18 +0000
Subject: [PATCH 19/29] fix: name with a sheet number that is no internal
 EXTERNSHEET (BIFF 5/7)

---
 xlrd/book.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index e5fd418..434ac26 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1035,8 +1035,11 @@ class Book(BaseObject):
                 if sheet_index == 0:
                     intl_sheet_index = -1 # global
                 else:
-                    sheet_name = self._extnsht_name_from_num[sheet_index]
-                    intl_sheet_index = self._sheet_num_from_name.get(sheet_name, -2)
+                    sheet_name = self._extnsht_name_from_num.get(sheet_index)
+                    if sheet_name is None:
+                        intl_sheet_index = -3 # invalid
+                    else:
+                        intl_sheet_index = self._sheet_num_from_name.get(sheet_name, -2)
             nobj.scope = intl_sheet_index
 
         for namex in range(num_names):
-- 
2.43.0


From d2f5b5e0d3290ae8b83792e28a33d2d8cc15cea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:18 +0000
Subject: [PATCH 20/29] fix: Name.cell and Name.area2d on a reference without
 value raise XLRDError, not TypeError

---
 xlrd/book.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 434ac26..f00b9d6 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -209,7 +209,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1:
+            if kind == oREF and value is not None and len(value) == 1:
                 ref3d = value[0]
                 if (0 <= ref3d.shtxlo == ref3d.shtxhi - 1 and
                         ref3d.rowxlo == ref3d.rowxhi - 1 and
@@ -246,7 +246,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1: # only 1 reference
+            if kind == oREF and value is not None and len(value) == 1: # only 1 reference
                 ref3d = value[0]
                 if 0 <= ref3d.shtxlo == ref3d.shtxhi - 1: # only 1 usable sheet
                     sh = self.book.sheet_by_index(ref3d.shtxlo)
-- 
2.43.0


From 9f78b934482d66804ebfb6092c17767fdd480826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:19 +0000
Subject: [PATCH 21/29] fix: binary operators in name formulas never fail and
 never give a wrong value

Operators whose operands or results Python cannot handle (division by zero,
text that is not a number, overflow, complex powers, numbers compared with
text) made opening the workbook fail. Excel compares text without regard to
case, sorts numbers before text, shows at most 15 digits, and has no 0^0.
---
 xlrd/formula.py | 84 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 68 insertions(+), 16 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 76c2f67..c0c902b 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -12,6 +12,7 @@ from __future__ import print_function
 
 import copy
 import operator as opr
+import re
 from struct import unpack
 
 from .biffh import (
@@ -700,26 +701,71 @@ tLT, tLE, tEQ, tGE, tGT, tNE = range(0x09, 0x0F)
 def nop(x):
     return x
 
-def _opr_pow(x, y): return x ** y
+# The conversion and operator functions raise ValueError (or ArithmeticError)
+# where Excel's result is an error, or is not known for sure.
 
-def _opr_lt(x, y): return x <  y
-def _opr_le(x, y): return x <= y
-def _opr_eq(x, y): return x == y
-def _opr_ge(x, y): return x >= y
-def _opr_gt(x, y): return x >  y
-def _opr_ne(x, y): return x != y
+def _opr_pow(x, y):
+    if x == 0 == y:
+        raise ValueError("0^0 is #NUM!")
+    return x ** y
+
+def _compare(x, y, ordering=1):
+    """
+    Compare two (oNUM or oSTRG, value) operands like Excel does: a number is
+    less than any text; the case of letters makes no difference.
+    :returns: a number less than, equal to or greater than zero.
+    """
+    (xkind, xval), (ykind, yval) = x, y
+    if xkind != ykind:
+        return -1 if xkind == oNUM else 1
+    if xkind == oSTRG and xval != yval:
+        for strg in (xval, yval):
+            # Other characters depend on locale-specific collation rules.
+            if not _plain_text(strg) if ordering else not _ascii_text(strg):
+                raise ValueError("comparison depends on locale")
+        xval, yval = xval.lower(), yval.lower()
+    return (xval > yval) - (xval < yval)
+
+_plain_text = re.compile(r'[0-9A-Za-z]*\Z').match
+_ascii_text = re.compile(r'[\x00-\x7f]*\Z').match
+
+def _opr_lt(x, y): return _compare(x, y) <  0
+def _opr_le(x, y): return _compare(x, y) <= 0
+def _opr_eq(x, y): return _compare(x, y, 0) == 0
+def _opr_ge(x, y): return _compare(x, y) >= 0
+def _opr_gt(x, y): return _compare(x, y) >  0
+def _opr_ne(x, y): return _compare(x, y, 0) != 0
 
 def num2strg(num):
     """
     Attempt to emulate Excel's default conversion from number to string.
     """
-    s = str(num)
-    if s.endswith(".0"):
-        s = s[:-2]
-    return s
+    s = "%.15g" % num
+    if s.strip("-0123456789."):
+        raise ValueError("number needs an exponent")
+    return "0" if s == "-0" else s
+
+def is_finite(num):
+    # False for complex numbers (from negative ** fraction), inf and nan
+    return not isinstance(num, complex) and num - num == 0
+
+_plain_number = re.compile(
+    r' *[-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[Ee][-+]?[0-9]+)? *\Z').match
 
-_arith_argdict = {oNUM: nop,     oSTRG: float}
-_cmp_argdict =   {oNUM: nop,     oSTRG: nop}
+def strg2num(strg):
+    """
+    Emulate Excel's conversion from string to number, for strings which
+    are numbers in every locale and have no more digits than Excel keeps.
+    """
+    if len(strg) > 15 or not _plain_number(strg):
+        raise ValueError("not a plain number")
+    num = float(strg)
+    if not is_finite(num):
+        raise ValueError("number out of range")
+    return num
+
+_arith_argdict = {oNUM: nop,     oSTRG: strg2num}
+_cmp_argdict =   {oNUM: lambda x: (oNUM, x), oSTRG: lambda x: (oSTRG, x)}
 # Seems no conversions done on relops; in Excel, "1" > 9 produces TRUE.
 _strg_argdict =  {oNUM:num2strg, oSTRG:nop}
 binop_rules = {
@@ -796,11 +842,17 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
         if bop.value is None or aop.value is None:
             stk.append(resop)
             return
-        bval = bconv(bop.value)
-        aval = aconv(aop.value)
-        result = func(aval, bval)
+        try:
+            bval = bconv(bop.value)
+            aval = aconv(aop.value)
+            result = func(aval, bval)
+        except (ArithmeticError, ValueError):
+            stk.append(resop)
+            return
         if result_kind == oBOOL:
             result = 1 if result else 0
+        elif result_kind == oNUM and not is_finite(result):
+            result = None
         resop.value = result
         stk.append(resop)
 
-- 
2.43.0


From 724841296ea94f944407fa63efa665c8ff244aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:19 +0000
Subject: [PATCH 22/29] fix: sign and percent operators on operands other than
 numbers in name formulas

They failed on text and references, and gave a number for an error operand.
---
 xlrd/formula.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index c0c902b..dd7e95d 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -868,8 +868,18 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             ')'[:aop.rank < rank],
             sym2,
         ])
-        if val is not None:
+        if opcode == 0x12 and aop.kind in (oSTRG, oBOOL):
+            # unary plus returns its operand as is
+            result_kind = aop.kind
+        elif aop.kind == oSTRG and val is not None:
+            try:
+                val = func(strg2num(val))
+            except ValueError:
+                val = None
+        elif aop.kind == oNUM and val is not None:
             val = func(val)
+        else:
+            val = None
         stk.append(Operand(result_kind, val, rank, otext))
 
     def not_in_name_formula(op_arg, oname_arg):
-- 
2.43.0


From 9bc6b95d930be0d594dcb91eae4184db3b4338fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:19 +0000
Subject: [PATCH 23/29] fix: CHOOSE in a name formula failed when its first
 argument is not constant

---
 xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index dd7e95d..893f1eb 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1173,7 +1173,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                             print("$$$$$$ IF => constant", file=bk.logfile)
                 elif funcx == 100: # CHOOSE
                     testarg = stack[-nargs]
-                    if testarg.kind == oNUM:
+                    if testarg.kind == oNUM and testarg.value is not None:
                         if 1 <= testarg.value < nargs:
                             chosen = stack[-nargs + int(testarg.value)]
                             if chosen.kind == oMSNG:
-- 
2.43.0


From 68a43e7ad3c6dc2c42d1364c509407486fbaeec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:19 +0000
Subject: [PATCH 24/29] fix: a function without arguments in a name formula
 dropped all operands before it

---
 xlrd/formula.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 893f1eb..c030574 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1147,7 +1147,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert minargs <= nargs <= maxargs
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
-                argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                first_arg = len(stack) - nargs
+                argtext = listsep.join(arg.text for arg in stack[first_arg:])
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 if funcx == 1: # IF
@@ -1180,7 +1181,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                                 res.kind, res.value = oNUM, 0
                             else:
                                 res.kind, res.value = chosen.kind, chosen.value
-                del stack[-nargs:]
+                del stack[first_arg:]
                 spush(res)
         elif opcode == 0x03: #tName
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
-- 
2.43.0


From c1469ac2b24993a128a183ac54b0d15089b2b21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:19 +0000
Subject: [PATCH 25/29] fix: parentheses in the text of name formulas

A right operand of equal rank, a union inside another operator or in an
argument list, and the different ranks of the reference operators need them.
---
 xlrd/formula.py | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index c030574..7f5a6dd 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -791,6 +791,11 @@ unop_rules = {
 
 LEAF_RANK = 90
 FUNC_RANK = 90
+RANGE_RANK = 80
+ISECT_RANK = 78
+# Excel has the list (union) operator just below intersection. The rank given
+# to it here puts it in parentheses wherever it is an operand of another operator.
+LIST_RANK = 5
 
 STACK_ALARM_LEVEL = 5
 STACK_PANIC_LEVEL = 10
@@ -818,6 +823,13 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
     error_opnd = Operand(oERR, None)
     spush = stack.append
 
+    def arglist(args):
+        # The list operator looks like the argument separator.
+        return listsep.join(
+            '(' + arg.text + ')' if arg.rank == LIST_RANK else arg.text
+            for arg in args
+        )
+
     def do_binop(opcd, stk):
         assert len(stk) >= 2
         bop = stk.pop()
@@ -828,9 +840,9 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             aop.text,
             ')'[:aop.rank < rank],
             sym,
-            '('[:bop.rank < rank],
+            '('[:bop.rank <= rank],
             bop.text,
-            ')'[:bop.rank < rank],
+            ')'[:bop.rank <= rank],
         ])
         resop = Operand(result_kind, None, rank, otext)
         try:
@@ -922,18 +934,17 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ' '
-                rank = 80 ########## check #######
+                rank = ISECT_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
-                res = Operand(oREF)
-                res.text = otext
+                res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
                 elif bop.kind == oUNK or aop.kind == oUNK:
@@ -972,15 +983,15 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ','
-                rank = 80 ########## check #######
+                rank = LIST_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
@@ -1003,15 +1014,15 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ':'
-                rank = 80 ########## check #######
+                rank = RANGE_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
@@ -1071,7 +1082,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     if blah: print("tAttrSum", stack, file=bk.logfile)
                     assert len(stack) >= 1
                     aop = stack[-1]
-                    otext = 'SUM(%s)' % aop.text
+                    otext = 'SUM(%s)' % arglist(stack[-1:])
                     stack[-1] = Operand(oNUM, None, FUNC_RANK, otext)
                 else:
                     sz = 4
@@ -1119,7 +1130,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                           % (funcx, func_name, nargs), file=bk.logfile)
                 assert len(stack) >= nargs
                 if nargs:
-                    argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                    argtext = arglist(stack[-nargs:])
                     otext = "%s(%s)" % (func_name, argtext)
                     del stack[-nargs:]
                 else:
@@ -1148,7 +1159,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
                 first_arg = len(stack) - nargs
-                argtext = listsep.join(arg.text for arg in stack[first_arg:])
+                argtext = arglist(stack[first_arg:])
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 if funcx == 1: # IF
-- 
2.43.0


From cc2f515c5dac61a3ef5915ed9965bb34c59bbd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:19 +0000
Subject: [PATCH 26/29] fix: an error value in the text of a name formula is
 not a quoted string

---
 xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 7f5a6dd..db6ba13 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1105,7 +1105,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 elif inx == 1: # tBool
                     text = ('FALSE', 'TRUE')[value]
                 else:
-                    text = '"' +error_text_from_code[value] + '"'
+                    text = error_text_from_code[value]
                 spush(Operand(kind, value, LEAF_RANK, text))
             else:
                 raise FormulaError("Unhandled opcode: 0x%02x" % opcode)
-- 
2.43.0


From 72b122aa59b92e81b1e24dcfd2063e0515d4da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:19 +0000
Subject: [PATCH 27/29] fix: sheet of a local name in the text of name formulas

The sheet name was not quoted, and a scope that is not a worksheet gave the
name of some other sheet or an IndexError.
---
 xlrd/formula.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index db6ba13..b980ad5 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1216,11 +1216,11 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert len(tgtobj.stack) == 1
                 res = copy.deepcopy(tgtobj.stack[0])
             res.rank = LEAF_RANK
-            if tgtobj.scope == -1:
+            if tgtobj.scope < 0: # global, or no known sheet
                 res.text = tgtobj.name
             else:
                 res.text = "%s!%s" \
-                           % (bk._sheet_names[tgtobj.scope], tgtobj.name)
+                           % (quotedsheetname(bk._sheet_names, tgtobj.scope), tgtobj.name)
             if blah:
                 print("    tName: setting text to", repr(res.text), file=bk.logfile)
             spush(res)
@@ -1395,11 +1395,11 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     assert len(tgtobj.stack) == 1
                     res = copy.deepcopy(tgtobj.stack[0])
                 res.rank = LEAF_RANK
-                if tgtobj.scope == -1:
+                if tgtobj.scope < 0: # global, or no known sheet
                     res.text = tgtobj.name
                 else:
                     res.text = "%s!%s" \
-                               % (bk._sheet_names[tgtobj.scope], tgtobj.name)
+                               % (quotedsheetname(bk._sheet_names, tgtobj.scope), tgtobj.name)
                 if blah:
                     print("    tNameX: setting text to", repr(res.text), file=bk.logfile)
             spush(res)
-- 
2.43.0


From 78a2a4666560a5c5b75c388a10213d4f63393018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:43 +0000
Subject: [PATCH 28/29] fix: unions as operands of reference operators in name
 formulas

An assertion made opening the workbook fail.
---
 xlrd/formula.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index b980ad5..509801f 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -406,6 +406,10 @@ def do_box_funcs(box_funcs, boxa, boxb):
         for func, numa, numb in zip(box_funcs, boxa.coords, boxb.coords)
     )
 
+def is_box(opnd):
+    # The range and intersection of unions are not evaluated.
+    return opnd.value is not None and len(opnd.value) == 1
+
 def adjust_cell_addr_biff8(rowval, colval, reldelta, browx=None, bcolx=None):
     row_rel = (colval >> 15) & 1
     col_rel = (colval >> 14) & 1
@@ -956,17 +960,13 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     # res.kind = oREF
                     pass
                 elif bop.kind == oREF == aop.kind:
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if is_box(aop) and is_box(bop):
                         coords = do_box_funcs(
                             tIsectFuncs, aop.value[0], bop.value[0])
                         res.value = [Ref3D(coords)]
                 elif bop.kind == oREL == aop.kind:
                     res.kind = oREL
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if is_box(aop) and is_box(bop):
                         coords = do_box_funcs(
                             tIsectFuncs, aop.value[0], bop.value[0])
                         relfa = aop.value[0].relflags
@@ -1001,8 +1001,6 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     if aop.kind == oREL or bop.kind == oREL:
                         res.kind = oREL
                     if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) >= 1
-                        assert len(bop.value) == 1
                         res.value = aop.value + bop.value
                 else:
                     pass
@@ -1028,17 +1026,13 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
                 elif bop.kind == oREF == aop.kind:
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if is_box(aop) and is_box(bop):
                         coords = do_box_funcs(
                             tRangeFuncs, aop.value[0], bop.value[0])
                         res.value = [Ref3D(coords)]
                 elif bop.kind == oREL == aop.kind:
                     res.kind = oREL
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if is_box(aop) and is_box(bop):
                         coords = do_box_funcs(
                             tRangeFuncs, aop.value[0], bop.value[0])
                         relfa = aop.value[0].relflags
-- 
2.43.0


From 84ae7318c7bdc94a5b64ac776161441677efb758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:28 +0000
Subject: [PATCH 29/29] fix: BIFF2 ROW record naming an XF record in a file
 without any

---
 xlrd/sheet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 8810352..365a3c3 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1411,7 +1411,7 @@ class Sheet(BaseObject):
                     elif data_len == 18:
                         # Seems the XF index in the cell_attr is dodgy
                         xfx = local_unpack('<H', data[16:18])[0]
-                        xf_index = self.fixed_BIFF2_xfindex(cell_attr=None, rowx=rowx, colx=-1, true_xfx=xfx)
+                        xf_index = self.fixed_BIFF2_xfindex(data[13:16], rowx, colx=-1, true_xfx=xfx)
                     else:
                         cell_attr = data[13:16]
                         xf_index = self.fixed_BIFF2_xfindex(cell_attr, rowx, colx=-1)
-- 
2.43.0

