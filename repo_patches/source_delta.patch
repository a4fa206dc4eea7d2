From 539768e81feb887d549d494b2a3a16374aba5225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 01/23] fix: refuse numerals with a misplaced comma or point
 before a unit, or a comma in the fraction
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'1,千', '12,3万' and '1.千5' were read as numbers although '1,' and '1.' are
not, and '1.2,345' was read as 1.2345.
---
 sudachipy/plugin/path_rewrite/numericparser.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sudachipy/plugin/path_rewrite/numericparser.py b/sudachipy/plugin/path_rewrite/numericparser.py
index f48daf1..09e3d4a 100644
--- a/sudachipy/plugin/path_rewrite/numericparser.py
+++ b/sudachipy/plugin/path_rewrite/numericparser.py
@@ -219,6 +219,8 @@ class NumericParser(object):
             return False
 
         num = self._char_to_num[char]
+        if num < 0 and not self.check_unit():
+            return False
         if self.is_small_unit(num):
             self._tmp.shift_scale(-num)
             if not self._sub_total.add(self._tmp):
@@ -259,8 +261,17 @@ class NumericParser(object):
     def get_normalized(self) -> str:
         return str(self._total)
 
+    def check_unit(self) -> bool:
+        if self._has_hanging_point:
+            self._error_state = self.Error.POINT
+            return False
+        if self._has_comma and self._digit_length != 3:
+            self._error_state = self.Error.COMMA
+            return False
+        return True
+
     def check_comma(self) -> bool:
-        if self._is_first_digit:
+        if self._is_first_digit or self._tmp.point >= 0:
             return False
         if not self._has_comma:
             return self._digit_length <= 3 and not self._tmp.is_zero() and not self._tmp.is_all_zero
-- 
2.43.0


From 962434152553d9b0dded3a46a95993e73088ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:03 +0000
Subject: [PATCH 02/23] fix: map a shortened prolonged sound mark run to its
 own place

The offset after a replacement assumed a replacement symbol of one character,
so with any other length every later replacement went to the wrong place.
---
 sudachipy/plugin/input_text/prolongedsoundmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/plugin/input_text/prolongedsoundmark.py b/sudachipy/plugin/input_text/prolongedsoundmark.py
index 6bfb2aa..0a0bc47 100644
--- a/sudachipy/plugin/input_text/prolongedsoundmark.py
+++ b/sudachipy/plugin/input_text/prolongedsoundmark.py
@@ -44,7 +44,7 @@ class ProlongedSoundMarkInputTextPlugin(InputTextPlugin):
             elif is_psm and cp not in self._psm_set:
                 if i - m_start_idx > 1:
                     builder.replace(m_start_idx - offset, i - offset, self._replace_symbol)
-                    offset += i - m_start_idx - 1
+                    offset += i - m_start_idx - len(self._replace_symbol)
                 is_psm = False
         if is_psm and n - m_start_idx > 1:
             builder.replace(m_start_idx - offset, n - offset, self._replace_symbol)
-- 
2.43.0


From b046a22226792b857d04550415e9d866beada421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:51 +0000
Subject: [PATCH 03/23] fix: read a connection matrix that is not square with
 its own shape

---
 sudachipy/dictionarylib/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/grammar.py b/sudachipy/dictionarylib/grammar.py
index 4118bd9..1ffd0cc 100644
--- a/sudachipy/dictionarylib/grammar.py
+++ b/sudachipy/dictionarylib/grammar.py
@@ -42,7 +42,7 @@ class Grammar:
         self._matrix_view = \
             memoryview(bytes_)[connect_table_offset: connect_table_offset + 2 * left_id_size * right_id_size]
         if left_id_size * right_id_size != 0:
-            self._matrix_view = self._matrix_view.cast('h', shape=[left_id_size, right_id_size])
+            self._matrix_view = self._matrix_view.cast('h', shape=[right_id_size, left_id_size])
         bytes_.seek(original_offset)
 
     def get_storage_size(self):
-- 
2.43.0


From f30e69c42798a3f01cfad87e3fc6721abc37251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:51 +0000
Subject: [PATCH 04/23] fix: write the whole connection matrix when its last
 cells are not given

---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index bde5871..134d4e8 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -198,7 +198,7 @@ class DictionaryBuilder(object):
         self.byte_buffer.write_int(lsize, 'short')
         self.byte_buffer.write_int(rsize, 'short')
 
-        matrix = JTypedByteBuffer()
+        matrix = JTypedByteBuffer(b'\x00' * (2 * lsize * rsize))
 
         for i, line in enumerate(matrix_input.readlines()):
             line = line.strip()
-- 
2.43.0


From 47f6469feaf0720b0ed1f9ee731f6f26bc3472e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:51 +0000
Subject: [PATCH 05/23] fix: read part-of-speech components of any length and
 content

---
 sudachipy/dictionarylib/grammar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/grammar.py b/sudachipy/dictionarylib/grammar.py
index 1ffd0cc..9297eb8 100644
--- a/sudachipy/dictionarylib/grammar.py
+++ b/sudachipy/dictionarylib/grammar.py
@@ -98,8 +98,10 @@ class Grammar:
     @staticmethod
     def bytes_get_string(bytes_):
         length = bytes_.read_byte()
+        if length >= 128:
+            length = ((length & 0x7F) << 8) | bytes_.read_byte()
         string = bytes_.read(2 * length)
-        return string.decode('utf-16')
+        return string.decode('utf-16-le')
 
     @staticmethod
     def bytes_get_short(bytes_):
-- 
2.43.0


From f2afa03d23362c6cc98c8ef8cad959ef012b7b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:51 +0000
Subject: [PATCH 06/23] fix: let connection costs of a system dictionary be
 edited in memory

---
 sudachipy/dictionarylib/binarydictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/binarydictionary.py b/sudachipy/dictionarylib/binarydictionary.py
index 30ff868..ec858d8 100644
--- a/sudachipy/dictionarylib/binarydictionary.py
+++ b/sudachipy/dictionarylib/binarydictionary.py
@@ -47,7 +47,7 @@ class BinaryDictionary(object):
 
     @classmethod
     def from_system_dictionary(cls, filename):
-        args = cls._read_dictionary(filename)
+        args = cls._read_dictionary(filename, mmap.ACCESS_COPY)
         if not args[2].is_system_dictionary():
             raise IOError('invalid system dictionary')
         return cls(*args)
-- 
2.43.0


From 74eda3ad208aaa0af7e55f338be13d30da2e5a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:41 +0000
Subject: [PATCH 07/23] fix: decode braced unicode escapes of any length

---
 sudachipy/dictionarylib/dictionarybuilder.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 134d4e8..a238fe7 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -305,11 +305,7 @@ class DictionaryBuilder(object):
 
     def decode(self, str_):
         def replace(match):
-            uni_text = match.group()
-            uni_text = uni_text.replace('{', '').replace('}', '')
-            if len(uni_text) > 6:
-                uni_text = ('\\U000{}'.format(uni_text[2:]))
-            return uni_text.encode('ascii').decode('unicode-escape')
+            return chr(int(match.group(1).strip('{}'), 16))
         return re.sub(self.__PATTERN_UNICODE_LITERAL, replace, str_)
 
     def check_splitinfo_format(self, str_):
-- 
2.43.0


From 66b849c3ee5c192ebccc72d1d535d517153172c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:41 +0000
Subject: [PATCH 08/23] fix: find words of every dictionary in
 LexiconSet.get_word_id

---
 sudachipy/dictionarylib/lexiconset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/lexiconset.py b/sudachipy/dictionarylib/lexiconset.py
index 6cc3d99..1a8bac4 100644
--- a/sudachipy/dictionarylib/lexiconset.py
+++ b/sudachipy/dictionarylib/lexiconset.py
@@ -80,7 +80,7 @@ class LexiconSet(Lexicon):
     def get_word_id(self, headword: str, pos_id: int, reading_form: str) -> int:
         for dic_id in range(len(self.lexicons)):
             wid = self.lexicons[dic_id].get_word_id(headword, pos_id, reading_form)
-            if wid <= 0:
+            if wid >= 0:
                 return self.build_word_id(dic_id, wid)
         return self.lexicons[0].get_word_id(headword, pos_id, reading_form)
 
-- 
2.43.0


From 69f675d40ad996085b3d98651bebbeae5307b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:41 +0000
Subject: [PATCH 09/23] fix: keep word ids of the eighth and later user
 dictionaries

---
 sudachipy/latticenode.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/latticenode.pxd b/sudachipy/latticenode.pxd
index f931fb8..8d2f5ca 100644
--- a/sudachipy/latticenode.pxd
+++ b/sudachipy/latticenode.pxd
@@ -3,7 +3,7 @@ cdef class LatticeNode:
     cdef int begin
     cdef int end
     cdef int total_cost
-    cdef int word_id
+    cdef unsigned int word_id
     cdef bint _is_oov
     cdef LatticeNode best_previous_node
     cdef bint is_connected_to_bos
-- 
2.43.0


From b667209cbc773f6e9e986a2be1b57d2998fe3225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:41 +0000
Subject: [PATCH 10/23] fix: start every analysis with an empty lattice

---
 sudachipy/tokenizer.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sudachipy/tokenizer.pyx b/sudachipy/tokenizer.pyx
index 18e21fa..5144a82 100644
--- a/sudachipy/tokenizer.pyx
+++ b/sudachipy/tokenizer.pyx
@@ -143,6 +143,7 @@ class Tokenizer:
         logger.info('=== Inupt dump:')
         logger.info(input_.get_text())
 
+        self._lattice.clear()  # a failed analysis may have left nodes
         self._build_lattice(input_)
 
         logger.info('=== Lattice dump:')
-- 
2.43.0


From 6613bc182fceedf1a084bf5f9c030751541306d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:41 +0000
Subject: [PATCH 11/23] fix: accept a character definition without ranges

---
 sudachipy/dictionarylib/charactercategory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/charactercategory.py b/sudachipy/dictionarylib/charactercategory.py
index fdecef3..a375cf6 100644
--- a/sudachipy/dictionarylib/charactercategory.py
+++ b/sudachipy/dictionarylib/charactercategory.py
@@ -92,6 +92,8 @@ class CharacterCategory(object):
                 left_chain.put(right)
                 left_chain.put(left)
                 right_chain.pop(0)
+        if not new_range_list:
+            return
         self.range_list = []
         _range = new_range_list[0]
         for irange in new_range_list[1:]:
-- 
2.43.0


From 3e79d588babc7f44c3afabf6907ef8f85988fef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:41 +0000
Subject: [PATCH 12/23] fix: count string lengths in UTF-16 units, as they are
 stored

---
 sudachipy/dictionarylib/dictionarybuilder.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index a238fe7..3ab4866 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -146,9 +146,7 @@ class DictionaryBuilder(object):
     def __is_length_valid(self, cols):
         head_length = len(cols[0].encode('utf-8'))
         return head_length <= self.__STRING_MAX_LENGTH \
-            and len(cols[4]) <= self.__STRING_MAX_LENGTH \
-            and len(cols[11]) <= self.__STRING_MAX_LENGTH \
-            and len(cols[12]) <= self.__STRING_MAX_LENGTH
+            and all(len(cols[i].encode('utf-16-le')) // 2 <= self.__STRING_MAX_LENGTH for i in (4, 11, 12))
 
     def add_to_trie(self, headword, word_id):
         key = headword.encode('utf-8')
-- 
2.43.0


From 0a0767b2b80489695e569aaca0f3c5d9c3fa5f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:41 +0000
Subject: [PATCH 13/23] fix: read words whose dictionary forms refer to each
 other

---
 sudachipy/dictionarylib/wordinfolist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudachipy/dictionarylib/wordinfolist.py b/sudachipy/dictionarylib/wordinfolist.py
index 6a62ebb..bfa7efe 100644
--- a/sudachipy/dictionarylib/wordinfolist.py
+++ b/sudachipy/dictionarylib/wordinfolist.py
@@ -48,8 +48,8 @@ class WordInfoList(object):
 
         dictionary_form = surface
         if dictionary_form_word_id >= 0 and dictionary_form_word_id != word_id:
-            wi = self.get_word_info(dictionary_form_word_id)
-            dictionary_form = wi.surface
+            self.bytes.seek(self.word_id_to_offset(dictionary_form_word_id))
+            dictionary_form = self.buffer_to_string()
 
         self.bytes.seek(orig_pos)
 
-- 
2.43.0


From 741b1799424cffedb7fae08a28ece4ff1ead9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:21 +0000
Subject: [PATCH 14/23] fix: offer every prefix of a grouped run when a
 category has several unknown words

---
 sudachipy/plugin/oov/mecab_oov_plugin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index 123b638..9421977 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -77,7 +77,7 @@ class MeCabOovPlugin(OovProviderPlugin):
                 s = input_text.get_substring(offset, offset + length)
                 for oov in oovs:
                     nodes.append(self.get_oov_node(s, oov, length))
-                    llength -= 1
+                llength -= 1
             for i in range(1, cinfo.length + 1):
                 sublength = input_text.get_code_points_offset_length(offset, i)
                 if sublength > llength:
-- 
2.43.0


From 0862f0c346801b1d473345fc35bb0db20abafacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:21 +0000
Subject: [PATCH 15/23] fix: do not count unknown words that no word can follow

---
 sudachipy/tokenizer.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sudachipy/tokenizer.pyx b/sudachipy/tokenizer.pyx
index 5144a82..a0ab12d 100644
--- a/sudachipy/tokenizer.pyx
+++ b/sudachipy/tokenizer.pyx
@@ -61,6 +61,9 @@ cdef void build_lattice_c(object tokenizer, object input_):
         if CategoryType.NOOOVBOW not in input_.get_char_category_types(i):
             for oov_plugin in tokenizer._oov_provider_plugins:
                 for node in oov_plugin.get_oov(input_, i, has_words):
+                    end = node.get_end()
+                    if (end < len(bytes_)) and (not input_.can_bow(end)):
+                        continue
                     has_words = True
                     lattice.insert(node.get_begin(), node.get_end(), node)
         if not has_words and tokenizer.default_oov_provider:
-- 
2.43.0


From d5c648bf157d6c40f75d4d5cb4f6e58fb638d604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:25 +0000
Subject: [PATCH 16/23] fix: separate the units of a lexicon row before
 decoding their escapes

---
 sudachipy/dictionarylib/dictionarybuilder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 3ab4866..7d8317f 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -105,7 +105,8 @@ class DictionaryBuilder(object):
     def parse_line(self, cols):
         if len(cols) < self.__MIN_REQUIRED_COLS_NUM:
             raise ValueError('invalid format')
-        cols = [self.decode(col) for col in cols]
+        # units are decoded after they have been separated (word_to_id)
+        cols = [col if 15 <= i <= 17 else self.decode(col) for i, col in enumerate(cols)]
         if not self.__is_length_valid(cols):
             raise ValueError('string is too long')
         if not cols[0]:
@@ -344,11 +345,12 @@ class DictionaryBuilder(object):
         cols = text.split(',')
         if len(cols) < 8:
             raise ValueError('too few columns')
-        headword = self.decode(cols[0])
+        cols = [self.decode(col) for col in cols]
+        headword = cols[0]
         pos_id = self.get_posid([cols[i] for i in range(1, 7)])
         if pos_id < 0:
             raise ValueError('invalid part of speech')
-        reading = self.decode(cols[7])
+        reading = cols[7]
         return self.get_wordid(headword, pos_id, reading)
 
     def get_wordid(self, headword, pos_id, reading_form):
-- 
2.43.0


From 74c92cdb60aaf62d6c18591f96f6ac6e5f665fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:56 +0000
Subject: [PATCH 17/23] fix: refuse unit references whose number does not fit a
 word id

---
 sudachipy/dictionarylib/dictionarybuilder.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 7d8317f..1487006 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -332,12 +332,11 @@ class DictionaryBuilder(object):
         return re.match(r'U?\d+$', text)
 
     def parse_id(self, text):
-        if text.startswith('U'):
-            id_ = int(text[1:])
-            if self.is_user_dictionary:
-                id_ |= (1 << 28)
-        else:
-            id_ = int(text)
+        id_ = int(text.lstrip('U'))
+        if id_ >= (1 << 28):
+            raise ValueError('invalid word ID')
+        if text.startswith('U') and self.is_user_dictionary:
+            id_ |= (1 << 28)
         self.check_wordid(id_)
         return id_
 
-- 
2.43.0


From 9dab6e0a6b92e97699d51a0301e03f5a659eb675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:58 +0000
Subject: [PATCH 18/23] fix: keep part-of-speech components with commas apart

---
 sudachipy/dictionarylib/dictionarybuilder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 1487006..c23f375 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -156,7 +156,7 @@ class DictionaryBuilder(object):
         self.trie_keys[key].append(word_id)
 
     def get_posid(self, strs):
-        return self.pos_table.get_id(','.join(strs))
+        return self.pos_table.get_id(tuple(strs))
 
     def write_grammar(self, matrix_input_stream, output_stream):
         self.logger.info('writing the POS table...')
@@ -185,7 +185,8 @@ class DictionaryBuilder(object):
     def convert_postable(self, pos_list):
         self.byte_buffer.write_int(len(pos_list), 'short')
         for pos in pos_list:
-            for text in pos.split(','):
+            # components in a tuple may contain commas
+            for text in pos.split(',') if isinstance(pos, str) else pos:
                 self.write_string(text)
 
     def convert_matrix(self, matrix_input):
-- 
2.43.0


From e27ff3619051137629d6415e58dc99daed4dea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:02 +0000
Subject: [PATCH 19/23] fix: do not look into a numeric run again that was not
 joined

When the first token of a run was no numeral, nothing was joined but the scan
jumped back into the run and joined a part of it - except at the end of the
text.
---
 .../plugin/path_rewrite/join_numeric_plugin.py   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
index 060423c..f369103 100644
--- a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
+++ b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
@@ -71,14 +71,12 @@ class JoinNumericPlugin(PathRewritePlugin):
 
             if begin_index >= 0:
                 if parser.done():
-                    self._concat(path, begin_index, i, lattice, parser)
-                    i = begin_index + 1
+                    i -= self._concat(path, begin_index, i, lattice, parser)
                 else:
                     ss = path[i - 1].get_word_info().normalized_form
                     if (parser.error_state == NumericParser.Error.COMMA and ss == ',') or \
                        (parser.error_state == NumericParser.Error.POINT and ss == '.'):
-                        self._concat(path, begin_index, i - 1, lattice, parser)
-                        i = begin_index + 2
+                        i -= self._concat(path, begin_index, i - 1, lattice, parser)
             begin_index = -1
             if not comma_as_digit and s != ',':
                 comma_as_digit = True
@@ -94,13 +92,15 @@ class JoinNumericPlugin(PathRewritePlugin):
                    (parser.error_state == NumericParser.Error.POINT and ss == '.'):
                     self._concat(path, begin_index, len(path) - 1, lattice, parser)
 
-    def _concat(self, path, begin, end, lattice, parser) -> None:
+    def _concat(self, path, begin, end, lattice, parser) -> int:
+        """ joins path[begin:end] and returns by how many nodes the path became shorter """
+        size = len(path)
         if path[begin].get_word_info().pos_id != self._numeric_pos_id:
-            return
+            return 0
         if self._enable_normalize:
             normalized_form = parser.get_normalized()
             if end - begin > 1 or normalized_form != path[begin].get_word_info().normalized_form:
                 self.concatenate(path, begin, end, lattice, normalized_form)
-            return
-        if end - begin > 1:
+        elif end - begin > 1:
             self.concatenate(path, begin, end, lattice, '')
+        return size - len(path)
-- 
2.43.0


From 2b2842e5251eda56154ec31915a902a326bf7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:02 +0000
Subject: [PATCH 20/23] fix: stop looking at a numeric token again whose own
 comma or point is wrong

A numeric token with such a normalized form was looked at for ever.
---
 sudachipy/plugin/path_rewrite/join_numeric_plugin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
index f369103..41e5241 100644
--- a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
+++ b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
@@ -59,10 +59,10 @@ class JoinNumericPlugin(PathRewritePlugin):
                 for c in s:
                     if not parser.append(c):
                         if begin_index >= 0:
-                            if parser.error_state == NumericParser.Error.COMMA:
+                            if parser.error_state == NumericParser.Error.COMMA and comma_as_digit:
                                 comma_as_digit = False
                                 i = begin_index - 1
-                            elif parser.error_state == NumericParser.Error.POINT:
+                            elif parser.error_state == NumericParser.Error.POINT and period_as_digit:
                                 period_as_digit = False
                                 i = begin_index - 1
                             begin_index = -1
-- 
2.43.0


From 542fab1c329a4d1580edf163e57b286f00b250fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:02 +0000
Subject: [PATCH 21/23] fix: do not join a malformed number before a comma or a
 point
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A run like 十11, was taken for the number 0 followed by a comma.
---
 sudachipy/plugin/path_rewrite/numericparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sudachipy/plugin/path_rewrite/numericparser.py b/sudachipy/plugin/path_rewrite/numericparser.py
index 09e3d4a..7fffaff 100644
--- a/sudachipy/plugin/path_rewrite/numericparser.py
+++ b/sudachipy/plugin/path_rewrite/numericparser.py
@@ -249,14 +249,15 @@ class NumericParser(object):
         return True
 
     def done(self) -> bool:
-        ret = self._sub_total.add(self._tmp) and self._total.add(self._sub_total)
+        if not (self._sub_total.add(self._tmp) and self._total.add(self._sub_total)):
+            return False
         if self._has_hanging_point:
             self._error_state = self.Error.POINT
             return False
         if self._has_comma and self._digit_length != 3:
             self._error_state = self.Error.COMMA
             return False
-        return ret
+        return True
 
     def get_normalized(self) -> str:
         return str(self._total)
-- 
2.43.0


From e5b7871402699e01cb7162b4254729cf961708c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:33 +0000
Subject: [PATCH 22/23] fix: refuse category names in OOV definitions that are
 other attributes of the enumeration

---
 sudachipy/plugin/oov/mecab_oov_plugin.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index 9421977..ef7c58f 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -106,8 +106,8 @@ class MeCabOovPlugin(OovProviderPlugin):
                 if len(cols) < 4:
                     raise ValueError("invalid format at line {}".format(i))
                 try:
-                    type_ = getattr(categorytype.CategoryType, cols[0])
-                except AttributeError:
+                    type_ = categorytype.CategoryType[cols[0]]
+                except KeyError:
                     raise ValueError("`{}` is invalid type at line {}".format(cols[0], i))
                 if type_ in self.categories:
                     raise ValueError("`{}` is already defined at line {}".format(cols[0], i))
@@ -129,8 +129,8 @@ class MeCabOovPlugin(OovProviderPlugin):
                 if len(cols) < 10:
                     raise ValueError("invalid format at line {}".format(i))
                 try:
-                    type_ = getattr(categorytype.CategoryType, cols[0])
-                except AttributeError:
+                    type_ = categorytype.CategoryType[cols[0]]
+                except KeyError:
                     raise ValueError("`{}` is invalid type at line {}".format(cols[0], i))
                 if type_ not in self.categories:
                     raise ValueError("`{}` is undefined at line {}".format(cols[0], i))
-- 
2.43.0


From bdae0d3d509379bb7e05d5640f259d3a74b36b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:57 +0000
Subject: [PATCH 23/23] fix: refuse unknown parts of speech in
 out-of-vocabulary definitions

---
 sudachipy/plugin/oov/mecab_oov_plugin.py  | 2 ++
 sudachipy/plugin/oov/simple_oov_plugin.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index ef7c58f..da55156 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -141,4 +141,6 @@ class MeCabOovPlugin(OovProviderPlugin):
                 oov.cost = int(cols[3])
                 pos = cols[4:10]
                 oov.pos_id = grammar.get_part_of_speech_id(pos)
+                if oov.pos_id < 0:
+                    raise ValueError("part of speech is invalid at line {}".format(i))
                 self.oov_list[type_].append(oov)
diff --git a/sudachipy/plugin/oov/simple_oov_plugin.py b/sudachipy/plugin/oov/simple_oov_plugin.py
index 82c2218..908407e 100644
--- a/sudachipy/plugin/oov/simple_oov_plugin.py
+++ b/sudachipy/plugin/oov/simple_oov_plugin.py
@@ -28,6 +28,8 @@ class SimpleOovPlugin(OovProviderPlugin):
 
     def set_up(self, grammar):
         self.oov_pos_id = grammar.get_part_of_speech_id(self.__oov_pos_strings)
+        if self.oov_pos_id < 0:
+            raise ValueError("oovPOS is invalid")
 
     def provide_oov(self, input_text, offset, has_other_words):
         if not has_other_words:
-- 
2.43.0

