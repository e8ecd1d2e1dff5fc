From 6d2c3bb0ba303aaa1464ca20888ed631cccbacdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:22 +0000
Subject: [PATCH 01/21] fix: FieldIndex.sort fails on unindexed ids when the
 values are not numbers

---
 src/zope/index/field/sorting.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/zope/index/field/sorting.py b/src/zope/index/field/sorting.py
index 0c44012..be10c10 100644
--- a/src/zope/index/field/sorting.py
+++ b/src/zope/index/field/sorting.py
@@ -126,9 +126,12 @@ class SortingIndexMixin:
                 # of documents in this index, or if we need to sort in
                 # reverse order, use a non-lazy sort.
                 n = 0
-                for docid in sorted(docids, key=getValue, reverse=reverse):
-                    if getValue(docid, marker) is not marker:
-                        n += 1
-                        yield docid
-                        if limit and n >= limit:
-                            return
+                # Leave out unknown ids first: their default value need
+                # not be comparable with the indexed values.
+                indexed = [docid for docid in docids
+                           if getValue(docid, marker) is not marker]
+                for docid in sorted(indexed, key=getValue, reverse=reverse):
+                    n += 1
+                    yield docid
+                    if limit and n >= limit:
+                        return
-- 
2.43.0


From e411112bb9368548d109f2777f21cb11e72ef431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:22 +0000
Subject: [PATCH 02/21] fix: KeywordIndex miscounts documents whose keywords
 all normalize away

---
 src/zope/index/keyword/index.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 96bb9ab..8a09d9c 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -91,6 +91,11 @@ class KeywordIndex(Persistent):
         seq = self.normalize(seq)
 
         new_kw = self.family.OO.Set(seq)
+        if not new_kw:
+            # normalization dropped all keywords
+            if old_kw:
+                self.unindex_doc(docid)
+            return
 
         if old_kw is None:
             self._insert_forward(docid, new_kw)
-- 
2.43.0


From 2e14e55ff7702039f107ea1e13327df89a0b484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:22 +0000
Subject: [PATCH 03/21] fix: a reindexed document that no longer matches stays
 in the topic filter

---
 src/zope/index/topic/filter.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/zope/index/topic/filter.py b/src/zope/index/topic/filter.py
index dbaa98d..777edf3 100644
--- a/src/zope/index/topic/filter.py
+++ b/src/zope/index/topic/filter.py
@@ -73,7 +73,11 @@ class PythonFilteredSet(FilteredSetBase):
 
     def index_doc(self, docid, context):
         try:
-            if eval(self.expr):
-                self._ids.insert(docid)
+            matches = bool(eval(self.expr))
         except BaseException:
-            pass  # ignore errors
+            matches = False  # ignore errors
+        if matches:
+            self._ids.insert(docid)
+        else:
+            # the document may have matched when it was indexed before
+            self.unindex_doc(docid)
-- 
2.43.0


From b2bba953c4c7c51da15866d078df8851abd98725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:22 +0000
Subject: [PATCH 04/21] fix: TopicIndex.apply removes the operator from the
 query of the caller

---
 src/zope/index/topic/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/topic/index.py b/src/zope/index/topic/index.py
index 673f660..cdfc6fc 100644
--- a/src/zope/index/topic/index.py
+++ b/src/zope/index/topic/index.py
@@ -107,6 +107,6 @@ class TopicIndex(Persistent):
         operator = 'and'
         if isinstance(query, dict):
             if 'operator' in query:
-                operator = query.pop('operator')
+                operator = query['operator']
             query = query['query']
         return self.search(query, operator=operator)
-- 
2.43.0


From 37900eeac612d01033816e85317912e769f1e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:22 +0000
Subject: [PATCH 05/21] fix: TopicIndex.clearFilters is not stored

---
 src/zope/index/topic/index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/topic/index.py b/src/zope/index/topic/index.py
index cdfc6fc..eb05aae 100644
--- a/src/zope/index/topic/index.py
+++ b/src/zope/index/topic/index.py
@@ -54,8 +54,9 @@ class TopicIndex(Persistent):
     def clearFilters(self):
         """ Clear existing filters of their docids, but leave them in place.
         """
-        for filter in self._filters.values():
+        for id, filter in list(self._filters.items()):
             filter.clear()
+            self._filters[id] = filter  # not redundant:  Persistency!
 
     def index_doc(self, docid, obj):
         """index an object"""
-- 
2.43.0


From c05e13f2695a6c466281478f472b2c3accb79056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:22 +0000
Subject: [PATCH 06/21] fix: OkapiIndex.clear keeps the total document length

---
 src/zope/index/text/okapiindex.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/index/text/okapiindex.py b/src/zope/index/text/okapiindex.py
index a243398..45b3ed8 100644
--- a/src/zope/index/text/okapiindex.py
+++ b/src/zope/index/text/okapiindex.py
@@ -237,6 +237,10 @@ class OkapiIndex(BaseIndex):
         # used often enough that speed should matter.
         self._totaldoclen = Length(0)
 
+    def clear(self):
+        BaseIndex.clear(self)
+        self._totaldoclen = Length(0)
+
     def index_doc(self, docid, text):
         count = BaseIndex.index_doc(self, docid, text)
         self._change_doc_len(count)
-- 
2.43.0


From d2b2eb59caf159d24d13eb043c782fe80c56bd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:22 +0000
Subject: [PATCH 07/21] fix: CosineIndex.query_weight is no upper bound for
 repeated words

---
 src/zope/index/text/cosineindex.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/text/cosineindex.py b/src/zope/index/text/cosineindex.py
index 8c64e27..83ef283 100644
--- a/src/zope/index/text/cosineindex.py
+++ b/src/zope/index/text/cosineindex.py
@@ -84,9 +84,14 @@ class CosineIndex(BaseIndex):
         for term in terms:
             wids += self._lexicon.termToWordIds(term)
         N = float(len(self._docweight))
-        sum = 0.0
+        # A word that occurs several times in the query adds to the score
+        # as often, so its weight in the query vector is a multiple, too.
+        counts = {}
         for wid in self._remove_oov_wids(wids):
-            wt = inverse_doc_frequency(len(self._wordinfo[wid]), N)
+            counts[wid] = counts.get(wid, 0) + 1
+        sum = 0.0
+        for wid, count in counts.items():
+            wt = count * inverse_doc_frequency(len(self._wordinfo[wid]), N)
             sum += wt ** 2.0
         return math.sqrt(sum)
 
-- 
2.43.0


From 8ec5fc5cf6a6e924de4804bb09dea6c4bdb3851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:22 +0000
Subject: [PATCH 08/21] fix: phrase search matches words whose code only starts
 like the last word

---
 src/zope/index/text/baseindex.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/text/baseindex.py b/src/zope/index/text/baseindex.py
index 3076b89..0fce0a8 100644
--- a/src/zope/index/text/baseindex.py
+++ b/src/zope/index/text/baseindex.py
@@ -208,8 +208,15 @@ class BaseIndex(Persistent):
         result = self.family.IF.BTree()
         for docid, weight in hits.items():
             docwords = self._docwords[docid]
-            if docwords.find(code) >= 0:
-                result[docid] = weight
+            pos = docwords.find(code)
+            while pos >= 0:
+                # Only the first character of an encoded wid is >= 0x80:
+                # anything else there continues the last matched wid.
+                end = pos + len(code)
+                if end == len(docwords) or docwords[end] >= '\x80':
+                    result[docid] = weight
+                    break
+                pos = docwords.find(code, pos + 1)
         return result
 
     def _remove_oov_wids(self, wids):
-- 
2.43.0


From e49edd3d42ddb7e0f37de4a083647a0fea63c093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:22 +0000
Subject: [PATCH 09/21] fix: globToWordIds reads the part before the wildcard
 as a regular expression

---
 src/zope/index/text/lexicon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/text/lexicon.py b/src/zope/index/text/lexicon.py
index 2ed331a..ae053aa 100644
--- a/src/zope/index/text/lexicon.py
+++ b/src/zope/index/text/lexicon.py
@@ -119,7 +119,7 @@ class Lexicon(Persistent):
             # This is too efficient, so we raise an exception.
             raise QueryError(
                 "pattern %r shouldn't start with glob character" % pattern)
-        pat = prefix
+        pat = re.escape(prefix)
         for c in pattern:
             if c == "*":
                 pat += ".*"
-- 
2.43.0


From cc7cd9345080484b052ac9ef821243adbd970ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:22 +0000
Subject: [PATCH 10/21] fix: glob patterns treat newlines in words unlike other
 characters

---
 src/zope/index/text/lexicon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/text/lexicon.py b/src/zope/index/text/lexicon.py
index ae053aa..6e772a9 100644
--- a/src/zope/index/text/lexicon.py
+++ b/src/zope/index/text/lexicon.py
@@ -127,8 +127,8 @@ class Lexicon(Persistent):
                 pat += "."
             else:
                 pat += re.escape(c)
-        pat += "$"
-        prog = re.compile(pat)
+        pat += r"\Z"
+        prog = re.compile(pat, re.DOTALL)
         keys = self._wids.keys(prefix)  # Keys starting at prefix
         wids = []
         for key in keys:
-- 
2.43.0


From da1509bc64bfc15b66ef870f73d7210aceb71b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:22 +0000
Subject: [PATCH 11/21] fix: RiceCode(0) raises an error

---
 src/zope/index/text/ricecode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/text/ricecode.py b/src/zope/index/text/ricecode.py
index 555ffcc..b0a5263 100644
--- a/src/zope/index/text/ricecode.py
+++ b/src/zope/index/text/ricecode.py
@@ -102,7 +102,7 @@ class RiceCode:
     def init(self, m):
         self.m = m
         self.lower = (1 << m) - 1
-        self.mask = 1 << (m - 1)
+        self.mask = (1 << m) >> 1
 
     def append(self, val):
         """Append an item to the list."""
-- 
2.43.0


From f8a4c70a5a8ba7c00633e4d42b4e1d529c351a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:22 +0000
Subject: [PATCH 12/21] fix: decode_deltas loses the first and repeats the last
 delta

---
 src/zope/index/text/ricecode.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/zope/index/text/ricecode.py b/src/zope/index/text/ricecode.py
index b0a5263..9601fe1 100644
--- a/src/zope/index/text/ricecode.py
+++ b/src/zope/index/text/ricecode.py
@@ -186,10 +186,8 @@ def decode_deltas(start, enc_deltas):
     l_ = [start]
     if not enc_deltas:
         return l_
-    deltas = enc_deltas.tolist()
-    for i in range(1, len(deltas)):
-        l_.append(l_[i - 1] + deltas[i])
-    l_.append(l_[-1] + deltas[-1])
+    for delta in enc_deltas.tolist():
+        l_.append(l_[-1] + delta)
     return l_
 
 
-- 
2.43.0


From 8ac91afa1fa0a7fe33c383641531ba741bf3513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:42 +0000
Subject: [PATCH 13/21] fix: a text index with a rejected docid fails in later
 searches

index_doc added the docid to the words of the text before the BTree of the
document weights rejected it as out of range.
---
 src/zope/index/text/baseindex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/text/baseindex.py b/src/zope/index/text/baseindex.py
index 0fce0a8..2257804 100644
--- a/src/zope/index/text/baseindex.py
+++ b/src/zope/index/text/baseindex.py
@@ -104,8 +104,9 @@ class BaseIndex(Persistent):
             return self._reindex_doc(docid, text)
         wids = self._lexicon.sourceToWordIds(text)
         wid2weight, docweight = self._get_frequencies(wids)
-        self._mass_add_wordinfo(wid2weight, docid)
+        # First of all, as it rejects a docid outside the range of the family
         self._docweight[docid] = docweight
+        self._mass_add_wordinfo(wid2weight, docid)
         self._docwords[docid] = widcode.encode(wids)
         try:
             self.documentCount.change(1)
-- 
2.43.0


From 454112c9fd6ba4d8f7d59d020acd21a2df49707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:55 +0000
Subject: [PATCH 14/21] fix: okascore.score ignores errors of the objects it is
 given

A failing len() of the pairs made score() return None with an exception set,
and so did a frequency or document length that is no number.
---
 src/zope/index/text/okascore.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/text/okascore.c b/src/zope/index/text/okascore.c
index bc9f338..52100ca 100644
--- a/src/zope/index/text/okascore.c
+++ b/src/zope/index/text/okascore.c
@@ -57,18 +57,21 @@ score(PyObject *self, PyObject *args)
 	double idf;		/* inverse doc frequency of t */
 	double meandoclen;	/* average number of words in a doc */
 
-	int n, i;
+	Py_ssize_t n, i;
 
 	if (!PyArg_ParseTuple(args, "OOOdd:score", &result, &d2fitems, &d2len,
 						   &idf, &meandoclen))
 		return NULL;
 
 	n = PyObject_Length(d2fitems);
+	if (n < 0)
+		return NULL;
 	for (i = 0; i < n; ++i) {
 		PyObject *d_and_f;	/* d2f[i], a (d, f) pair */
 		PyObject *d;
 		double f;
 		PyObject *doclen;	/* ._docweight[d] */
+		double len;
 		double lenweight;
 		double tf;
 		PyObject *doc_score;
@@ -86,13 +89,23 @@ score(PyObject *self, PyObject *args)
 		}
 		d = PyTuple_GET_ITEM(d_and_f, 0);
 		f = PyFloat_AsDouble(PyTuple_GET_ITEM(d_and_f, 1));
+		if (f == -1.0 && PyErr_Occurred()) {
+			Py_DECREF(d_and_f);
+			return NULL;
+		}
 
 		doclen = PyObject_GetItem(d2len, d);
 		if (doclen == NULL) {
 			Py_DECREF(d_and_f);
 			return NULL;
 		}
-		lenweight = B_FROM1 + B * PyFloat_AsDouble(doclen) / meandoclen;
+		len = PyFloat_AsDouble(doclen);
+		if (len == -1.0 && PyErr_Occurred()) {
+			Py_DECREF(d_and_f);
+			Py_DECREF(doclen);
+			return NULL;
+		}
+		lenweight = B_FROM1 + B * len / meandoclen;
 
 		tf = f * K1_PLUS1 / (f + K1 * lenweight);
 		doc_score = PyFloat_FromDouble(tf * idf);
-- 
2.43.0


From d6c6cfd20969e6740db0e1832e979606eaae3f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:25 +0000
Subject: [PATCH 15/21] fix: FieldIndex counts a value whose docid was rejected

index_doc() stored the empty set of a new value before the docid was put
into it, so a docid the set refuses left the value behind in wordCount().
---
 src/zope/index/field/index.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/field/index.py b/src/zope/index/field/index.py
index b273023..5ec842d 100644
--- a/src/zope/index/field/index.py
+++ b/src/zope/index/field/index.py
@@ -73,9 +73,12 @@ class FieldIndex(SortingIndexMixin, persistent.Persistent):
         # Insert into forward index.
         set = self._fwd_index.get(value)
         if set is None:
+            # A docid the set refuses must not leave an empty set behind.
             set = self.family.IF.TreeSet()
+            set.insert(docid)
             self._fwd_index[value] = set
-        set.insert(docid)
+        else:
+            set.insert(docid)
 
         # increment doc count
         self._num_docs.change(1)
-- 
2.43.0


From 03bf8e61e2b3d20c1071ae1ad3adf1642f011d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:25 +0000
Subject: [PATCH 16/21] fix: KeywordIndex counts a keyword whose docid was
 rejected

_insert_forward() stored the empty set of a new keyword before the docid
was put into it, so a docid the set refuses left the keyword behind in
wordCount().
---
 src/zope/index/keyword/index.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 8a09d9c..5c18697 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -149,8 +149,12 @@ class KeywordIndex(Persistent):
         for word in words:
             word_idx = get_word_idx(word)
             if word_idx is None:
-                idx[word] = word_idx = Set()
-            word_idx.insert(docid)
+                # A docid the set refuses must not leave an empty set behind.
+                word_idx = Set()
+                word_idx.insert(docid)
+                idx[word] = word_idx
+            else:
+                word_idx.insert(docid)
             if (not isinstance(word_idx, TreeSet) and
                     len(word_idx) >= self.tree_threshold):
                 # Convert to a TreeSet.
-- 
2.43.0


From b1a33b93a557e237c6b0f75b118f87bb92c2fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:38 +0000
Subject: [PATCH 17/21] fix: a text the lexicon refuses changes the Okapi total
 length

OkapiIndex._reindex_doc() took the old length off the total before the
lexicon was asked for the words of the new text; a lexicon or pipeline
element that raises left the document indexed but not counted, so all
later scores were wrong.
---
 src/zope/index/text/okapiindex.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/text/okapiindex.py b/src/zope/index/text/okapiindex.py
index 45b3ed8..61ca699 100644
--- a/src/zope/index/text/okapiindex.py
+++ b/src/zope/index/text/okapiindex.py
@@ -247,8 +247,11 @@ class OkapiIndex(BaseIndex):
         return count
 
     def _reindex_doc(self, docid, text):
-        self._change_doc_len(-self._docweight[docid])
-        return BaseIndex._reindex_doc(self, docid, text)
+        oldlen = self._docweight[docid]
+        # The lexicon may refuse the text: change the total afterwards.
+        count = BaseIndex._reindex_doc(self, docid, text)
+        self._change_doc_len(-oldlen)
+        return count
 
     def unindex_doc(self, docid):
         if docid not in self._docwords:
-- 
2.43.0


From 996ccc4dfca887149fac207efc25f69c0ba15e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:16 +0000
Subject: [PATCH 18/21] fix: a keyword query returns the set stored in the
 index

An 'and' query for one keyword returned the set of the forward index
itself: indexing changed results handed out before, even while a caller
iterated over them, and changing a result changed the index.
---
 src/zope/index/keyword/index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 5c18697..732396b 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -189,6 +189,9 @@ class KeywordIndex(Persistent):
                 rs = self.family.IF.intersection(rs, set)
                 if not rs:
                     break
+            if rs and len(sets) == 1:
+                # intersection() did not copy the set stored in the index
+                rs = self.family.IF.multiunion(sets)
         else:
             raise TypeError('Keyword index only supports `and` and `or` '
                             'operators, not `%s`.' % operator)
-- 
2.43.0


From 64fee9a3ec12c1a2469e27e58999ab70ed56f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:16 +0000
Subject: [PATCH 19/21] fix: a topic query returns the set stored in the filter

An 'and' query for one filter returned the set of the filter itself:
indexing changed results handed out before, and changing a result
changed the filter.
---
 src/zope/index/topic/index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/index/topic/index.py b/src/zope/index/topic/index.py
index eb05aae..b1dd421 100644
--- a/src/zope/index/topic/index.py
+++ b/src/zope/index/topic/index.py
@@ -95,6 +95,9 @@ class TopicIndex(Persistent):
                 rs = self.family.IF.intersection(rs, set)
                 if not rs:
                     break
+            if rs and len(sets) == 1:
+                # intersection() did not copy the set stored in the index
+                rs = self.family.IF.multiunion(sets)
         else:
             raise TypeError('Topic index only supports `and` and `or` '
                             'operators, not `%s`.' % operator)
-- 
2.43.0


From 7badc91dbf56c2d1ef211415a15fc8af4295920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:57 +0000
Subject: [PATCH 20/21] fix: concurrent changes are lost when a keyword set is
 converted

When _insert_forward() or optimize() replaced the set of a keyword by
one of the other type, a concurrent transaction that changed the old set
did not conflict, and its change was lost: the document was missing from
(or stayed in) all later results. Emptying the old set makes it a write
conflict.
---
 src/zope/index/keyword/index.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 732396b..ee21dfe 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -159,6 +159,8 @@ class KeywordIndex(Persistent):
                     len(word_idx) >= self.tree_threshold):
                 # Convert to a TreeSet.
                 idx[word] = TreeSet(word_idx)
+                # Concurrent changes of the old set have to conflict.
+                word_idx.clear()
 
     def _insert_reverse(self, docid, words):
         """ add words to forward index """
@@ -224,10 +226,15 @@ class KeywordIndex(Persistent):
                 if not isinstance(word_idx, TreeSet):
                     # Convert to a TreeSet.
                     idx[word] = TreeSet(word_idx)
+                    # Concurrent changes of the old set have to conflict.
+                    word_idx.clear()
             else:
                 if isinstance(word_idx, TreeSet):
                     # Convert to a Set.
                     idx[word] = Set(word_idx)
+                    # As above; clear() would leave the buckets unchanged.
+                    for docid in idx[word]:
+                        word_idx.remove(docid)
 
 
 class CaseInsensitiveKeywordIndex(KeywordIndex):
-- 
2.43.0


From 2026749058004cabee9a1fa6846514ed7db03018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:19 +0000
Subject: [PATCH 21/21] fix: deeply nested queries raise RecursionError

---
 src/zope/index/text/queryparser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/text/queryparser.py b/src/zope/index/text/queryparser.py
index 66370fd..ca87597 100644
--- a/src/zope/index/text/queryparser.py
+++ b/src/zope/index/text/queryparser.py
@@ -127,7 +127,10 @@ class QueryParser:
 
         # Syntactical analysis.
         self._ignored = []  # Ignored words in the query, for parseQueryEx
-        tree = self._parseOrExpr()
+        try:
+            tree = self._parseOrExpr()
+        except RecursionError:
+            raise parsetree.ParseError("Query is nested too deeply") from None
         self._require(_EOF)
         if tree is None:
             raise parsetree.ParseError(
-- 
2.43.0

