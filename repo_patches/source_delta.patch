From 8f1a5129dcbd2d3ea31e380bcc4b22cc442f9e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:17 +0000
Subject: [PATCH 01/20] fix: FieldIndex.sort raised TypeError when unindexed
 ids met non-integer values

---
 src/zope/index/field/sorting.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/zope/index/field/sorting.py b/src/zope/index/field/sorting.py
index 0c44012..93fc8c9 100644
--- a/src/zope/index/field/sorting.py
+++ b/src/zope/index/field/sorting.py
@@ -50,7 +50,7 @@ class SortingIndexMixin:
 
         fwd_index = getattr(self, self._sorting_fwd_index_attr)
         rev_index = getattr(self, self._sorting_rev_index_attr)
-        getValue = lambda x, d=-1: rev_index.get(x, d)  # noqa: E731 use def
+        getValue = rev_index.get
         marker = object()
 
         # use_lazy and use_nbest computations lifted wholesale from
@@ -125,10 +125,16 @@ class SortingIndexMixin:
                 # If the result set is not much larger than the number
                 # of documents in this index, or if we need to sort in
                 # reverse order, use a non-lazy sort.
+                # Documents which are not indexed have no value to be
+                # compared, so leave them out before sorting.
+                values = {}
+                for docid in docids:
+                    val = getValue(docid, marker)
+                    if val is not marker:
+                        values[docid] = val
                 n = 0
-                for docid in sorted(docids, key=getValue, reverse=reverse):
-                    if getValue(docid, marker) is not marker:
-                        n += 1
-                        yield docid
-                        if limit and n >= limit:
-                            return
+                for docid in sorted(values, key=values.get, reverse=reverse):
+                    n += 1
+                    yield docid
+                    if limit and n >= limit:
+                        return
-- 
2.43.0


From ab76f7f7fa0f0f81b68f9156a420247c39711073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:31 +0000
Subject: [PATCH 02/20] fix: FieldIndex.sort raised TypeError when a document's
 value is None

---
 src/zope/index/field/sorting.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/zope/index/field/sorting.py b/src/zope/index/field/sorting.py
index 93fc8c9..e504e54 100644
--- a/src/zope/index/field/sorting.py
+++ b/src/zope/index/field/sorting.py
@@ -50,9 +50,16 @@ class SortingIndexMixin:
 
         fwd_index = getattr(self, self._sorting_fwd_index_attr)
         rev_index = getattr(self, self._sorting_rev_index_attr)
-        getValue = rev_index.get
         marker = object()
 
+        def getKey(docid):
+            # None is a valid value: like in the forward index, it sorts
+            # before everything else, which it cannot be compared with.
+            val = rev_index.get(docid, marker)
+            if val is marker:
+                return marker
+            return (val is not None, val)
+
         # use_lazy and use_nbest computations lifted wholesale from
         # Zope2 catalog without questioning reasoning
         use_lazy = rlen > numdocs * (rlen / 100 + 1)
@@ -72,9 +79,9 @@ class SortingIndexMixin:
 
             def nsort():
                 for docid in docids:
-                    val = getValue(docid, marker)
-                    if val is not marker:
-                        yield (val, docid)
+                    key = getKey(docid)
+                    if key is not marker:
+                        yield (key, docid)
 
             iterable = nsort()
 
@@ -127,13 +134,13 @@ class SortingIndexMixin:
                 # reverse order, use a non-lazy sort.
                 # Documents which are not indexed have no value to be
                 # compared, so leave them out before sorting.
-                values = {}
+                keys = {}
                 for docid in docids:
-                    val = getValue(docid, marker)
-                    if val is not marker:
-                        values[docid] = val
+                    key = getKey(docid)
+                    if key is not marker:
+                        keys[docid] = key
                 n = 0
-                for docid in sorted(values, key=values.get, reverse=reverse):
+                for docid in sorted(keys, key=keys.get, reverse=reverse):
                     n += 1
                     yield docid
                     if limit and n >= limit:
-- 
2.43.0


From e5e601d2d6af0360ccaa7d03edf6756abb4ad311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:01 +0000
Subject: [PATCH 03/20] fix: KeywordIndex counted documents whose keywords
 normalize to nothing

---
 src/zope/index/keyword/index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 96bb9ab..9cba170 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -91,6 +91,10 @@ class KeywordIndex(Persistent):
         seq = self.normalize(seq)
 
         new_kw = self.family.OO.Set(seq)
+        if not new_kw:
+            # E.g. an exhausted iterator, or all keywords normalized away.
+            self.unindex_doc(docid)
+            return
 
         if old_kw is None:
             self._insert_forward(docid, new_kw)
-- 
2.43.0


From 39b2e6a9361b7ec8457516c4028fd0125a434cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:16 +0000
Subject: [PATCH 04/20] fix: keyword and topic searches returned the index's
 own document set

---
 src/zope/index/keyword/index.py | 3 +++
 src/zope/index/topic/index.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 9cba170..c82c2e4 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -184,6 +184,9 @@ class KeywordIndex(Persistent):
                 rs = self.family.IF.intersection(rs, set)
                 if not rs:
                     break
+            if len(sets) == 1:
+                # Never hand out the index's own set.
+                rs = self.family.IF.Set(rs)
         else:
             raise TypeError('Keyword index only supports `and` and `or` '
                             'operators, not `%s`.' % operator)
diff --git a/src/zope/index/topic/index.py b/src/zope/index/topic/index.py
index 673f660..b851ed4 100644
--- a/src/zope/index/topic/index.py
+++ b/src/zope/index/topic/index.py
@@ -94,6 +94,9 @@ class TopicIndex(Persistent):
                 rs = self.family.IF.intersection(rs, set)
                 if not rs:
                     break
+            if len(sets) == 1:
+                # Never hand out the filter's own set.
+                rs = self.family.IF.Set(rs)
         else:
             raise TypeError('Topic index only supports `and` and `or` '
                             'operators, not `%s`.' % operator)
-- 
2.43.0


From deda3701c9f0bb744e30b53354ab959b8802c09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:31 +0000
Subject: [PATCH 05/20] fix: TopicIndex.apply removed the operator from the
 caller's query

---
 src/zope/index/topic/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/topic/index.py b/src/zope/index/topic/index.py
index b851ed4..c81e849 100644
--- a/src/zope/index/topic/index.py
+++ b/src/zope/index/topic/index.py
@@ -110,6 +110,6 @@ class TopicIndex(Persistent):
         operator = 'and'
         if isinstance(query, dict):
             if 'operator' in query:
-                operator = query.pop('operator')
+                operator = query['operator']
             query = query['query']
         return self.search(query, operator=operator)
-- 
2.43.0


From a5a3faaae5961d9a5337ab69a9124bdbbda3f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:44 +0000
Subject: [PATCH 06/20] fix: PythonFilteredSet kept reindexed documents which
 no longer match

---
 src/zope/index/topic/filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/index/topic/filter.py b/src/zope/index/topic/filter.py
index dbaa98d..edcbb79 100644
--- a/src/zope/index/topic/filter.py
+++ b/src/zope/index/topic/filter.py
@@ -75,5 +75,8 @@ class PythonFilteredSet(FilteredSetBase):
         try:
             if eval(self.expr):
                 self._ids.insert(docid)
+                return
         except BaseException:
             pass  # ignore errors
+        # The document does not satisfy the expression (any more).
+        self.unindex_doc(docid)
-- 
2.43.0


From e6234c583cf1ca8699ae973b58db291d3712b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:56 +0000
Subject: [PATCH 07/20] fix: OkapiIndex.clear did not reset the total document
 length

---
 src/zope/index/text/okapiindex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/text/okapiindex.py b/src/zope/index/text/okapiindex.py
index a243398..5aa6613 100644
--- a/src/zope/index/text/okapiindex.py
+++ b/src/zope/index/text/okapiindex.py
@@ -220,8 +220,8 @@ class OkapiIndex(BaseIndex):
     assert K1 >= 0.0
     assert 0.0 <= B <= 1.0
 
-    def __init__(self, lexicon, family=None):
-        BaseIndex.__init__(self, lexicon, family=family)
+    def clear(self):
+        BaseIndex.clear(self)
 
         # ._wordinfo for Okapi is
         # wid -> {docid -> frequency}; t -> D -> f(D, t)
-- 
2.43.0


From 606c666b5b7c38f68f596f9661916f9f94bf4f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:36 +0000
Subject: [PATCH 08/20] fix: phrase search matched prefixes of longer word id
 encodings

---
 src/zope/index/text/baseindex.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/zope/index/text/baseindex.py b/src/zope/index/text/baseindex.py
index 3076b89..b082287 100644
--- a/src/zope/index/text/baseindex.py
+++ b/src/zope/index/text/baseindex.py
@@ -14,6 +14,7 @@
 """Abstract base class for full text index with relevance ranking.
 """
 import math
+import re
 
 import BTrees
 from BTrees import Length
@@ -204,11 +205,13 @@ class BaseIndex(Persistent):
         hits = mass_weightedIntersection(scores, self.family)
         if not hits:
             return hits
-        code = widcode.encode(wids)
+        # The match must not end in the middle of the encoding of another
+        # wid:  all bytes of an encoding but the first are below 0x80.
+        find = re.compile(
+            re.escape(widcode.encode(wids)) + "(?![\x00-\x7f])").search
         result = self.family.IF.BTree()
         for docid, weight in hits.items():
-            docwords = self._docwords[docid]
-            if docwords.find(code) >= 0:
+            if find(self._docwords[docid]):
                 result[docid] = weight
         return result
 
-- 
2.43.0


From 58df6bd13086e657996fefc406575d3b1b462c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:49 +0000
Subject: [PATCH 09/20] fix: CosineIndex.query_weight was no upper bound for
 repeated query words

---
 src/zope/index/text/cosineindex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/text/cosineindex.py b/src/zope/index/text/cosineindex.py
index 8c64e27..6b372b3 100644
--- a/src/zope/index/text/cosineindex.py
+++ b/src/zope/index/text/cosineindex.py
@@ -84,9 +84,13 @@ class CosineIndex(BaseIndex):
         for term in terms:
             wids += self._lexicon.termToWordIds(term)
         N = float(len(self._docweight))
-        sum = 0.0
+        # A word repeated in the query scores once per occurrence.
+        wts = {}
         for wid in self._remove_oov_wids(wids):
             wt = inverse_doc_frequency(len(self._wordinfo[wid]), N)
+            wts[wid] = wts.get(wid, 0.0) + wt
+        sum = 0.0
+        for wt in wts.values():
             sum += wt ** 2.0
         return math.sqrt(sum)
 
-- 
2.43.0


From e8c933c3ccd7599a80cdf2cf39e1b0cee5ae5aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:04 +0000
Subject: [PATCH 10/20] fix: RiceCode could not be created with parameter 0

---
 src/zope/index/text/ricecode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/text/ricecode.py b/src/zope/index/text/ricecode.py
index 555ffcc..b0a5263 100644
--- a/src/zope/index/text/ricecode.py
+++ b/src/zope/index/text/ricecode.py
@@ -102,7 +102,7 @@ class RiceCode:
     def init(self, m):
         self.m = m
         self.lower = (1 << m) - 1
-        self.mask = 1 << (m - 1)
+        self.mask = (1 << m) >> 1
 
     def append(self, val):
         """Append an item to the list."""
-- 
2.43.0


From 1651e216997036ae73681997f512076add96f9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:17 +0000
Subject: [PATCH 11/20] fix: ricecode.decode_deltas returned wrong items for
 non-constant deltas

---
 src/zope/index/text/ricecode.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/zope/index/text/ricecode.py b/src/zope/index/text/ricecode.py
index b0a5263..f9cd66c 100644
--- a/src/zope/index/text/ricecode.py
+++ b/src/zope/index/text/ricecode.py
@@ -187,9 +187,8 @@ def decode_deltas(start, enc_deltas):
     if not enc_deltas:
         return l_
     deltas = enc_deltas.tolist()
-    for i in range(1, len(deltas)):
-        l_.append(l_[i - 1] + deltas[i])
-    l_.append(l_[-1] + deltas[-1])
+    for delta in deltas:
+        l_.append(l_[-1] + delta)
     return l_
 
 
-- 
2.43.0


From 8fa33fd0cde7c938b8b3113d3a90d37726cd4de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:31 +0000
Subject: [PATCH 12/20] fix: Lexicon.globToWordIds interpreted the literal
 prefix as a regexp

---
 src/zope/index/text/lexicon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/text/lexicon.py b/src/zope/index/text/lexicon.py
index 2ed331a..ae053aa 100644
--- a/src/zope/index/text/lexicon.py
+++ b/src/zope/index/text/lexicon.py
@@ -119,7 +119,7 @@ class Lexicon(Persistent):
             # This is too efficient, so we raise an exception.
             raise QueryError(
                 "pattern %r shouldn't start with glob character" % pattern)
-        pat = prefix
+        pat = re.escape(prefix)
         for c in pattern:
             if c == "*":
                 pat += ".*"
-- 
2.43.0


From 23168aab057297e537fc0bbb109a060c2cec8d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:44 +0000
Subject: [PATCH 13/20] fix: changes of topic filters (clear, setExpression)
 were never stored

---
 src/zope/index/topic/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/topic/filter.py b/src/zope/index/topic/filter.py
index edcbb79..d00a7e0 100644
--- a/src/zope/index/topic/filter.py
+++ b/src/zope/index/topic/filter.py
@@ -15,13 +15,14 @@
 """
 
 import BTrees
+from persistent import Persistent
 from zope.interface import implementer
 
 from zope.index.topic.interfaces import ITopicFilteredSet
 
 
 @implementer(ITopicFilteredSet)
-class FilteredSetBase:
+class FilteredSetBase(Persistent):
     """
     Base class for all filtered sets.
 
-- 
2.43.0


From 1541f88cc11838edbfb5cbccd133afcc463f403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:19 +0000
Subject: [PATCH 14/20] fix: KeywordIndex lost concurrent changes when
 converting a document set

---
 src/zope/index/keyword/index.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index c82c2e4..a096858 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -153,7 +153,16 @@ class KeywordIndex(Persistent):
             if (not isinstance(word_idx, TreeSet) and
                     len(word_idx) >= self.tree_threshold):
                 # Convert to a TreeSet.
-                idx[word] = TreeSet(word_idx)
+                self._replace_set(word, word_idx, TreeSet(word_idx))
+
+    def _replace_set(self, word, old, new):
+        """Replace the set of docids of *word*."""
+        self._fwd_index[word] = new
+        # Empty the replaced set, so that a concurrent transaction which
+        # adds docids to it or removes some from it gets a conflict error
+        # instead of losing its changes.
+        for docid in new:
+            old.remove(docid)
 
     def _insert_reverse(self, docid, words):
         """ add words to forward index """
@@ -209,7 +218,6 @@ class KeywordIndex(Persistent):
         This converts internal data structures between
         Sets and TreeSets based on tree_threshold.
         """
-        idx = self._fwd_index
         IF = self.family.IF
         Set = IF.Set
         TreeSet = IF.TreeSet
@@ -218,11 +226,11 @@ class KeywordIndex(Persistent):
             if len(word_idx) >= self.tree_threshold:
                 if not isinstance(word_idx, TreeSet):
                     # Convert to a TreeSet.
-                    idx[word] = TreeSet(word_idx)
+                    self._replace_set(word, word_idx, TreeSet(word_idx))
             else:
                 if isinstance(word_idx, TreeSet):
                     # Convert to a Set.
-                    idx[word] = Set(word_idx)
+                    self._replace_set(word, word_idx, Set(word_idx))
 
 
 class CaseInsensitiveKeywordIndex(KeywordIndex):
-- 
2.43.0


From dc9f044eea4c8ced172d4d252335f92cb95b5887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:06 +0000
Subject: [PATCH 15/20] fix: FieldIndex kept the value of a document rejected
 for its id

---
 src/zope/index/field/index.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/field/index.py b/src/zope/index/field/index.py
index b273023..69526cb 100644
--- a/src/zope/index/field/index.py
+++ b/src/zope/index/field/index.py
@@ -73,9 +73,12 @@ class FieldIndex(SortingIndexMixin, persistent.Persistent):
         # Insert into forward index.
         set = self._fwd_index.get(value)
         if set is None:
+            # An unusable docid must not leave an empty set behind.
             set = self.family.IF.TreeSet()
+            set.insert(docid)
             self._fwd_index[value] = set
-        set.insert(docid)
+        else:
+            set.insert(docid)
 
         # increment doc count
         self._num_docs.change(1)
-- 
2.43.0


From aa7a43e51c77ebac7e5ed0ca967bbb68f037084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:20 +0000
Subject: [PATCH 16/20] fix: KeywordIndex kept keywords of a document rejected
 for its id or keywords

---
 src/zope/index/keyword/index.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index a096858..19adc45 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -106,6 +106,9 @@ class KeywordIndex(Persistent):
             kw_added = self.family.OO.difference(new_kw, old_kw)
             kw_removed = self.family.OO.difference(old_kw, new_kw)
 
+            # first of all what may be rejected: the added keywords
+            self._insert_forward(docid, kw_added)
+
             # removed keywords are removed from the forward index
             for word in kw_removed:
                 fwd = self._fwd_index[word]
@@ -113,8 +116,7 @@ class KeywordIndex(Persistent):
                 if not fwd:
                     del self._fwd_index[word]
 
-            # now update reverse and forward indexes
-            self._insert_forward(docid, kw_added)
+            # now update the reverse index
             self._insert_reverse(docid, new_kw)
 
     def unindex_doc(self, docid):
@@ -145,11 +147,15 @@ class KeywordIndex(Persistent):
         IF = self.family.IF
         Set = IF.Set
         TreeSet = IF.TreeSet
-        for word in words:
-            word_idx = get_word_idx(word)
+        # Look up all words, and insert the docid before storing a new set,
+        # so that nothing has changed when a word or the docid is unusable.
+        for word, word_idx in [(word, get_word_idx(word)) for word in words]:
             if word_idx is None:
-                idx[word] = word_idx = Set()
-            word_idx.insert(docid)
+                word_idx = Set()
+                word_idx.insert(docid)
+                idx[word] = word_idx
+            else:
+                word_idx.insert(docid)
             if (not isinstance(word_idx, TreeSet) and
                     len(word_idx) >= self.tree_threshold):
                 # Convert to a TreeSet.
-- 
2.43.0


From 81689173599fd69c4ed6be65d5fe6dd0641ed0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:33 +0000
Subject: [PATCH 17/20] fix: text indexes kept traces of documents rejected for
 their id or text

---
 src/zope/index/text/baseindex.py  | 6 ++++--
 src/zope/index/text/okapiindex.py | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/zope/index/text/baseindex.py b/src/zope/index/text/baseindex.py
index b082287..256b0c4 100644
--- a/src/zope/index/text/baseindex.py
+++ b/src/zope/index/text/baseindex.py
@@ -105,9 +105,11 @@ class BaseIndex(Persistent):
             return self._reindex_doc(docid, text)
         wids = self._lexicon.sourceToWordIds(text)
         wid2weight, docweight = self._get_frequencies(wids)
-        self._mass_add_wordinfo(wid2weight, docid)
+        docwords = widcode.encode(wids)
+        # These reject unusable docids, unlike the dicts in ._wordinfo.
         self._docweight[docid] = docweight
-        self._docwords[docid] = widcode.encode(wids)
+        self._docwords[docid] = docwords
+        self._mass_add_wordinfo(wid2weight, docid)
         try:
             self.documentCount.change(1)
         except AttributeError:
diff --git a/src/zope/index/text/okapiindex.py b/src/zope/index/text/okapiindex.py
index 5aa6613..e3ad67a 100644
--- a/src/zope/index/text/okapiindex.py
+++ b/src/zope/index/text/okapiindex.py
@@ -243,8 +243,11 @@ class OkapiIndex(BaseIndex):
         return count
 
     def _reindex_doc(self, docid, text):
-        self._change_doc_len(-self._docweight[docid])
-        return BaseIndex._reindex_doc(self, docid, text)
+        old_len = self._docweight[docid]
+        count = BaseIndex._reindex_doc(self, docid, text)
+        # Only now is it certain that the new text is not rejected.
+        self._change_doc_len(-old_len)
+        return count
 
     def unindex_doc(self, docid):
         if docid not in self._docwords:
-- 
2.43.0


From 58ad0615057d190d324f3574859795d68c8c5fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:55 +0000
Subject: [PATCH 18/20] fix: Lexicon.globToWordIds failed for words containing
 newlines

---
 src/zope/index/text/lexicon.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/zope/index/text/lexicon.py b/src/zope/index/text/lexicon.py
index ae053aa..3e72c28 100644
--- a/src/zope/index/text/lexicon.py
+++ b/src/zope/index/text/lexicon.py
@@ -127,14 +127,15 @@ class Lexicon(Persistent):
                 pat += "."
             else:
                 pat += re.escape(c)
-        pat += "$"
-        prog = re.compile(pat)
+        # Wildcards and the end of the pattern must not treat newlines
+        # specially, there are lexicons without a splitter.
+        prog = re.compile(pat, re.DOTALL)
         keys = self._wids.keys(prefix)  # Keys starting at prefix
         wids = []
         for key in keys:
             if not key.startswith(prefix):
                 break
-            if prog.match(key):
+            if prog.fullmatch(key):
                 wids.append(self._wids[key])
         return wids
 
-- 
2.43.0


From 3563e049df20ad86141fd67fe1b74a76890a69e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:10 +0000
Subject: [PATCH 19/20] fix: too deeply nested queries raised RecursionError
 instead of ParseError

---
 src/zope/index/text/queryparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/text/queryparser.py b/src/zope/index/text/queryparser.py
index 66370fd..b7ee65a 100644
--- a/src/zope/index/text/queryparser.py
+++ b/src/zope/index/text/queryparser.py
@@ -127,7 +127,11 @@ class QueryParser:
 
         # Syntactical analysis.
         self._ignored = []  # Ignored words in the query, for parseQueryEx
-        tree = self._parseOrExpr()
+        try:
+            tree = self._parseOrExpr()
+        except RecursionError:
+            raise parsetree.ParseError(
+                "Query is nested too deeply") from None
         self._require(_EOF)
         if tree is None:
             raise parsetree.ParseError(
-- 
2.43.0


From a1f6f9c15ecbba381fb1c1bdeb646106ba50c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:20 +0000
Subject: [PATCH 20/20] fix: FieldIndex lost a document whose new value was
 rejected

---
 src/zope/index/field/index.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/field/index.py b/src/zope/index/field/index.py
index 69526cb..634190c 100644
--- a/src/zope/index/field/index.py
+++ b/src/zope/index/field/index.py
@@ -69,7 +69,6 @@ class FieldIndex(SortingIndexMixin, persistent.Persistent):
             if docid in self._fwd_index.get(value, ()):
                 # no need to index the doc, its already up to date
                 return
-            self.unindex_doc(docid)
         # Insert into forward index.
         set = self._fwd_index.get(value)
         if set is None:
@@ -80,6 +79,9 @@ class FieldIndex(SortingIndexMixin, persistent.Persistent):
         else:
             set.insert(docid)
 
+        # Only now is it certain that the new value is not rejected.
+        self.unindex_doc(docid)
+
         # increment doc count
         self._num_docs.change(1)
 
-- 
2.43.0

