From 3cc5fd236d90ff468e76b65745fa63b019628ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 01/18] fix: don't fail on letters without a Unicode name

unicodedata.name() raises ValueError for them, so MorphAnalyzer.parse()
and .tag() raised an exception for tokens with such letters.
---
 pymorphy2/shapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymorphy2/shapes.py b/pymorphy2/shapes.py
index e203981..108e559 100644
--- a/pymorphy2/shapes.py
+++ b/pymorphy2/shapes.py
@@ -14,7 +14,8 @@ def is_latin_char(uchr):
     except KeyError:
         if isinstance(uchr, bytes):
             uchr = uchr.decode('ascii')
-        is_latin = 'LATIN' in unicodedata.name(uchr)
+        # some letters don't have a name in this Unicode version
+        is_latin = 'LATIN' in unicodedata.name(uchr, '')
         return _latin_letters_cache.setdefault(uchr, is_latin)
 
 
-- 
2.43.0


From e1a089c29512ec5f9a7f20606a46e24e9ccb626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 02/18] fix: preserve probability_estimator_cls and
 char_substitutes on pickling

MorphAnalyzer.__reduce__ dropped these constructor arguments, so a copy
of an analyzer created with custom values gave different parses.
---
 pymorphy2/analyzer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pymorphy2/analyzer.py b/pymorphy2/analyzer.py
index 7c27e70..06038e1 100644
--- a/pymorphy2/analyzer.py
+++ b/pymorphy2/analyzer.py
@@ -17,7 +17,10 @@ logger = logging.getLogger(__name__)
 _Parse = collections.namedtuple('Parse', 'word, tag, normal_form, score, methods_stack')
 
 _score_getter = operator.itemgetter(3)
-auto = object()
+
+
+class auto(object):
+    """ Marker for default values (a class, in order to be picklable) """
 
 
 class Parse(_Parse):
@@ -193,6 +196,8 @@ class MorphAnalyzer(object):
         # save arguments for pickling/unpickling
         self._path = path
         self._lang = lang
+        self._probability_estimator_cls = probability_estimator_cls
+        self._char_substitutes_orig = char_substitutes
 
         if path is None and lang is None:
             lang = 'ru'
@@ -440,5 +445,6 @@ class MorphAnalyzer(object):
         return self.TagClass.lat2cyr(tag_or_grammeme)
 
     def __reduce__(self):
-        args = (self._path, self._lang, self._result_type_orig, self._units_unbound)
+        args = (self._path, self._lang, self._result_type_orig, self._units_unbound,
+                self._probability_estimator_cls, self._char_substitutes_orig)
         return self.__class__, args, None
-- 
2.43.0


From 0e107a0ee60793c703a9fc593be8b2a17e9fc018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 03/18] fix: don't return shared mutable sets from
 numeral_agreement_grammemes

Changing the returned set corrupted numeral agreement of all words.
---
 pymorphy2/tagset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index e294a6f..ced2745 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -509,7 +509,7 @@ class OpencorporaTag(object):
             grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[3]
         else:
             grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[4]
-        return grammemes
+        return set(grammemes)  # a copy: the class attribute is shared
 
     #@classmethod
     #def _clone_class(cls):
-- 
2.43.0


From 9c44c15029690d992abd7351e882bc4bb4bcd546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 04/18] fix: don't reset known grammemes when another
 dictionary is loaded

Tag class is shared; creating an analyzer (or compiling a dictionary)
made grammemes unknown for existing analyzers: until units of the new
analyzer were initialized if it happens in another thread, or permanently
for dictionary compilation. This caused exceptions in other threads.
---
 pymorphy2/tagset.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index ced2745..8c7e88c 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -443,9 +443,12 @@ class OpencorporaTag(object):
             ]
 
         """
-        cls.KNOWN_GRAMMEMES = set()
-        cls._CYR2LAT = {}
-        cls._LAT2CYR = {}
+        # The class is shared by all analyzers, and other threads may be
+        # using it, so don't drop grammemes which are already known
+        # (e.g. added by analyzer units), not even temporarily.
+        cls.KNOWN_GRAMMEMES = set(cls.KNOWN_GRAMMEMES)
+        cls._CYR2LAT = dict(cls._CYR2LAT or {})
+        cls._LAT2CYR = dict(cls._LAT2CYR or {})
         for name, parent, alias, description in dict_grammemes:
             cls.add_grammemes_to_known(name, alias)
 
-- 
2.43.0


From 964b92861600becf5fb281600447c794b29b42de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 05/18] fix: don't lose lexemes with circular links

A lexeme linked to itself (directly or through other lexemes) was
removed from a compiled dictionary; more links caused an infinite loop.
---
 pymorphy2/opencorpora_dict/compile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymorphy2/opencorpora_dict/compile.py b/pymorphy2/opencorpora_dict/compile.py
index e6a95e5..4216f3c 100644
--- a/pymorphy2/opencorpora_dict/compile.py
+++ b/pymorphy2/opencorpora_dict/compile.py
@@ -225,6 +225,9 @@ def _join_lexemes(lexemes, links):
         while to_id in moves:
             to_id = moves[to_id]
 
+        if to_id == from_id:  # circular links
+            return
+
         lexemes[str(to_id)].extend(lm)
         del lm[:]
         moves[from_id] = to_id
-- 
2.43.0


From dccc07c4f1a98898ece8e373310b75509c180097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 06/18] fix: don't use tags with redundant grammemes as
 replacements

When a spelling with loc1/gen1/acc1 was the most common one, tag
simplification added loc1/gen1/acc1 back to the dictionary.
---
 pymorphy2/opencorpora_dict/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/opencorpora_dict/preprocess.py b/pymorphy2/opencorpora_dict/preprocess.py
index 7247cc5..f9c280a 100644
--- a/pymorphy2/opencorpora_dict/preprocess.py
+++ b/pymorphy2/opencorpora_dict/preprocess.py
@@ -76,7 +76,7 @@ def _get_tag_spellings(parsed_dict):
     """
     spellings = collections.defaultdict(lambda: collections.defaultdict(int))
     for tag in _itertags(parsed_dict):
-        spellings[tag2grammemes(tag)][tag] += 1
+        spellings[tag2grammemes(tag)][replace_redundant_grammemes(tag)] += 1
     return spellings
 
 
-- 
2.43.0


From c899343468e9fa2888d144398e5a25ed4d508e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 07/18] fix: don't leave stale meta.json when overwriting a
 dictionary

If overwriting was interrupted, the old meta.json made a mix of files
from two different dictionaries loadable.
---
 pymorphy2/opencorpora_dict/storage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymorphy2/opencorpora_dict/storage.py b/pymorphy2/opencorpora_dict/storage.py
index 9eaf728..6257daa 100644
--- a/pymorphy2/opencorpora_dict/storage.py
+++ b/pymorphy2/opencorpora_dict/storage.py
@@ -90,6 +90,11 @@ def save_compiled_dict(compiled_dict, out_path, source_name, language_code):
     logger.info("Saving...")
     _f = lambda path: os.path.join(out_path, path)
 
+    # meta.json is written last; if saving is interrupted then
+    # a partially overwritten dictionary shouldn't be loadable.
+    if os.path.exists(_f('meta.json')):
+        os.remove(_f('meta.json'))
+
     json_write(_f('grammemes.json'), compiled_dict.parsed_dict.grammemes)
 
     gramtab_formats = {}
-- 
2.43.0


From 3e821970c3cd694034536761f69a317302524503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 08/18] fix: don't report success when the output folder can't
 be created

---
 pymorphy2/opencorpora_dict/compile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymorphy2/opencorpora_dict/compile.py b/pymorphy2/opencorpora_dict/compile.py
index 4216f3c..1ca3ccf 100644
--- a/pymorphy2/opencorpora_dict/compile.py
+++ b/pymorphy2/opencorpora_dict/compile.py
@@ -380,6 +380,8 @@ def _create_out_path(out_path, overwrite=False):
         logger.debug("Creating output folder %s", out_path)
         os.mkdir(out_path)
     except OSError:
+        if not os.path.exists(out_path):
+            raise
         if overwrite:
             logger.info("Output folder already exists, overwriting..")
         else:
-- 
2.43.0


From 467e102414844bb2abcdd19316643a60d40bfcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 09/18] fix: accept --lang and --dict in 'pymorphy parse'

---
 pymorphy2/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/cli.py b/pymorphy2/cli.py
index cd062f3..8a76267 100644
--- a/pymorphy2/cli.py
+++ b/pymorphy2/cli.py
@@ -24,7 +24,7 @@ Pymorphy2 is a morphological analyzer / inflection engine for Russian language.
 __doc__ = """
 Usage::
 
-    pymorphy parse [options] [<input>]
+    pymorphy parse [options] [--lang <lang>] [--dict <path>] [<input>]
     pymorphy dict meta [--lang <lang> | --dict <path>]
     pymorphy dict mem_usage [--lang <lang> | --dict <path>] [--verbose]
     pymorphy -h | --help
-- 
2.43.0


From fccacc3a7ea1e024d4eac84eabf47279d85d1814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 10/18] fix: don't tag very long integers as real numbers

---
 pymorphy2/units/by_shape.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymorphy2/units/by_shape.py b/pymorphy2/units/by_shape.py
index 2f1d505..7c91fe6 100644
--- a/pymorphy2/units/by_shape.py
+++ b/pymorphy2/units/by_shape.py
@@ -118,6 +118,9 @@ class NumberAnalyzer(_ShapeAnalyzer):
         except ValueError:
             try:
                 float(word.replace(',', '.'))
+                # int() refuses very long numbers in recent Pythons
+                if word.strip().lstrip('+-').isdigit():
+                    return 'intg'
                 return 'real'
             except ValueError:
                 pass
-- 
2.43.0


From 52041e6b97ec092d451f9c223317d715e1480d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:07 +0000
Subject: [PATCH 11/18] fix: count each ending of a short word once in
 prediction data

Words shorter than max_suffix_length had word[-i:] == word counted for
every remaining i, inflating counts (and min_ending_freq) for the whole
word as its own ending.
---
 pymorphy2/opencorpora_dict/compile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymorphy2/opencorpora_dict/compile.py b/pymorphy2/opencorpora_dict/compile.py
index 1ca3ccf..70c858a 100644
--- a/pymorphy2/opencorpora_dict/compile.py
+++ b/pymorphy2/opencorpora_dict/compile.py
@@ -320,7 +320,10 @@ def _suffixes_prediction_data(words, paradigm_popularity, gramtab, paradigms, su
 
         POS = tuple(tag.replace(' ', ',', 1).split(','))[0]
 
-        for i in range(max(len(form_suffix), 1), max_suffix_length+1): #was: 1,2,3,4,5
+        # a word can be shorter than max_suffix_length; don't count it
+        # as its own ending more than once
+        max_length = min(max_suffix_length, len(word))
+        for i in range(max(len(form_suffix), 1), max_length+1): #was: 1,2,3,4,5
             word_end = word[-i:]
             ending_counts[word_end] += 1
             prefix_endings[form_prefix_id][word_end][POS][(para_id, idx)] += 1
-- 
2.43.0


From 77550b062d2c6eead851e6dd08667ef0e34ea6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 12/18] fix: keep analyses of compound words with different
 lexemes after a prefix or a particle
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The key of seen parses ignored the left part of a compound, so
'мама-кошка-то' lost an analysis that 'мама-кошка' has.
---
 pymorphy2/units/utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pymorphy2/units/utils.py b/pymorphy2/units/utils.py
index da3f6da..e9fa9e2 100644
--- a/pymorphy2/units/utils.py
+++ b/pymorphy2/units/utils.py
@@ -3,10 +3,15 @@ from __future__ import absolute_import, unicode_literals, division
 
 
 def add_parse_if_not_seen(parse, result_list, seen_parses):
-    try:
-        para_id = parse[4][0][2]
-    except IndexError:
-        para_id = None
+    method = parse[4][0]
+    if len(method) == 3:
+        # a compound word: its lexeme depends on methods of both parts
+        para_id = method[1:]
+    else:
+        try:
+            para_id = method[2]
+        except IndexError:
+            para_id = None
 
     word = parse[0]
     tag = parse[1]
-- 
2.43.0


From 81afd0f655a8f24eda5911a229deaa0dcbbbfe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:19 +0000
Subject: [PATCH 13/18] fix: don't lose grammemes added while another thread
 loads or compiles a dictionary

---
 pymorphy2/tagset.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index 8c7e88c..ed2e6c9 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -446,9 +446,14 @@ class OpencorporaTag(object):
         # The class is shared by all analyzers, and other threads may be
         # using it, so don't drop grammemes which are already known
         # (e.g. added by analyzer units), not even temporarily.
-        cls.KNOWN_GRAMMEMES = set(cls.KNOWN_GRAMMEMES)
-        cls._CYR2LAT = dict(cls._CYR2LAT or {})
-        cls._LAT2CYR = dict(cls._LAT2CYR or {})
+        # They are updated in place: a copy could miss grammemes which are
+        # being added by another thread.
+        if 'KNOWN_GRAMMEMES' not in cls.__dict__:
+            cls.KNOWN_GRAMMEMES = set(cls.KNOWN_GRAMMEMES)
+        if cls.__dict__.get('_LAT2CYR') is None:
+            cls._LAT2CYR = dict(cls._LAT2CYR or {})
+        if cls.__dict__.get('_CYR2LAT') is None:
+            cls._CYR2LAT = dict(cls._CYR2LAT or {})
         for name, parent, alias, description in dict_grammemes:
             cls.add_grammemes_to_known(name, alias)
 
-- 
2.43.0


From 3bf2b2a2ac11f495d887080cba4dd84031005a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:04 +0000
Subject: [PATCH 14/18] fix: don't divide by zero when all parses taken from a
 part of the word have a zero estimate

---
 pymorphy2/analyzer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymorphy2/analyzer.py b/pymorphy2/analyzer.py
index 06038e1..52819fb 100644
--- a/pymorphy2/analyzer.py
+++ b/pymorphy2/analyzer.py
@@ -82,7 +82,9 @@ class ProbabilityEstimator(object):
 
         if sum(probs) == 0:
             # no P(t|w) information is available; return normalized estimate
-            k = 1.0 / sum(map(_score_getter, parses))
+            # (which may be zero if the parses come from a part of the word)
+            total = sum(map(_score_getter, parses))
+            k = 1.0 / total if total else 0.0
             return [
                 (word, tag, normal_form, score*k, methods_stack)
                 for (word, tag, normal_form, score, methods_stack) in parses
-- 
2.43.0


From 24ea563431ba7c2b151153e268edbca27a2e1059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:32 +0000
Subject: [PATCH 15/18] fix: when a tag lists several grammemes of a category,
 the attribute is always the first one

---
 pymorphy2/tagset.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index ed2e6c9..db41979 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -44,14 +44,14 @@ class _select_grammeme_from(object):
         self.TypedGrammeme = TypedGrammeme
 
     def __get__(self, instance, owner):
-        grammemes = self.grammeme_set & instance.grammemes
-
-        if not grammemes:
-            # XXX: type checks are not enforced in this case
-            return None
-
-        res = next(iter(grammemes))
-        return self.TypedGrammeme(res) if owner.typed_grammemes else res
+        # Some tags list several grammemes of a category, so look at them
+        # in the order of the tag (the order in a set is random).
+        for res in instance._grammemes_tuple:
+            if res in self.grammeme_set:
+                return self.TypedGrammeme(res) if owner.typed_grammemes else res
+
+        # XXX: type checks are not enforced in this case
+        return None
 
 
 # Design notes: Tag objects are immutable, but the tag class is mutable.
-- 
2.43.0


From a6ab587152127202438dd16ad62d47fc9d36f9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:24 +0000
Subject: [PATCH 16/18] fix: don't take letters i without (or with) a dot or a
 newline at the end for a part of a Roman number

---
 pymorphy2/shapes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymorphy2/shapes.py b/pymorphy2/shapes.py
index 108e559..cb195ae 100644
--- a/pymorphy2/shapes.py
+++ b/pymorphy2/shapes.py
@@ -70,7 +70,7 @@ def is_punctuation(token):
 
 
 # The regex is from "Dive into Python" book.
-ROMAN_NUMBERS_RE = re.compile("""
+ROMAN_NUMBERS_RE = re.compile(r"""
     M{0,4}              # thousands - 0 to 4 M's
     (CM|CD|D?C{0,3})    # hundreds - 900 (CM), 400 (CD), 0-300 (0 to 3 C's),
                         #            or 500-800 (D, followed by 0 to 3 C's)
@@ -78,8 +78,8 @@ ROMAN_NUMBERS_RE = re.compile("""
                         #        or 50-80 (L, followed by 0 to 3 X's)
     (IX|IV|V?I{0,3})    # ones - 9 (IX), 4 (IV), 0-3 (0 to 3 I's),
                         #        or 5-8 (V, followed by 0 to 3 I's)
-    $                   # end of string
-""", re.VERBOSE | re.IGNORECASE)
+    \Z                  # end of string
+""", re.VERBOSE | re.IGNORECASE | getattr(re, 'ASCII', 0))
 
 def is_roman_number(token, _match=ROMAN_NUMBERS_RE.match):
     """
-- 
2.43.0


From 87eeac24a0b1be27a50b0c2c0f59723fa79ce61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:44 +0000
Subject: [PATCH 17/18] fix: close the XML file after reading the version of
 the dictionary

---
 pymorphy2/opencorpora_dict/parse.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pymorphy2/opencorpora_dict/parse.py b/pymorphy2/opencorpora_dict/parse.py
index 4424631..9d3fa18 100644
--- a/pymorphy2/opencorpora_dict/parse.py
+++ b/pymorphy2/opencorpora_dict/parse.py
@@ -35,13 +35,14 @@ ParsedDictionary = collections.namedtuple('ParsedDictionary', 'lexemes links gra
 
 def get_dictionary_info(filename, elem_limit=1000):
     """ Return dictionary version and revision """
-    for idx, (ev, elem) in enumerate(iterparse(filename, events=(str('start'),))):
-        if elem.tag == 'dictionary':
-            version = elem.get('version')
-            revision = elem.get('revision')
-            return version, revision
-        if idx > elem_limit:
-            return None, None
+    with open(filename, 'rb') as f:
+        for idx, (ev, elem) in enumerate(iterparse(f, events=(str('start'),))):
+            if elem.tag == 'dictionary':
+                version = elem.get('version')
+                revision = elem.get('revision')
+                return version, revision
+            if idx > elem_limit:
+                return None, None
     return None, None
 
 
-- 
2.43.0


From 1c5e93b61b3ff003f77e9648087543a8a1241fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:39 +0000
Subject: [PATCH 18/18] fix: don't fail when dictionaries with Cyrillic tags
 are initialized by several threads

---
 pymorphy2/tagset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index db41979..f779069 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -545,7 +545,8 @@ class CyrillicOpencorporaTag(OpencorporaTag):
 
     @classmethod
     def _from_internal_tag(cls, tag):
-        for name, alias in cls._GRAMMEME_ALIAS_MAP.items():
+        # (other threads may be adding grammemes: iterate over a copy)
+        for name, alias in list(cls._GRAMMEME_ALIAS_MAP.items()):
             if alias:
                 tag = tag.replace(name, alias)
         return tag
@@ -564,12 +565,12 @@ class CyrillicOpencorporaTag(OpencorporaTag):
         super(CyrillicOpencorporaTag, cls)._init_grammemes(dict_grammemes)
 
         GRAMMEME_INDICES = collections.defaultdict(int)
-        for name, idx in cls._GRAMMEME_INDICES.items():
+        for name, idx in list(cls._GRAMMEME_INDICES.items()):
             GRAMMEME_INDICES[cls._from_internal_grammeme(name)] = idx
         cls._GRAMMEME_INDICES = GRAMMEME_INDICES
 
         GRAMMEME_INCOMPATIBLE = collections.defaultdict(set)
-        for name, value in cls._GRAMMEME_INCOMPATIBLE.items():
+        for name, value in list(cls._GRAMMEME_INCOMPATIBLE.items()):
             GRAMMEME_INCOMPATIBLE[cls._from_internal_grammeme(name)] = set([
                 cls._from_internal_grammeme(gr) for gr in value
             ])
-- 
2.43.0

