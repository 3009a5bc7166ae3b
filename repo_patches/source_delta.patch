From c6f5746bb50a36cb095af2cc4bfe2de786811ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:35 +0000
Subject: [PATCH 01/40] fix: block_splitter must ignore the kind of items with
 zero weight

---
 openquake/commonlib/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index e38cebf..1576f2b 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -181,7 +181,7 @@ def block_splitter(items, max_weight, weight=lambda item: 1,
             raise ValueError('The item %r got a negative weight %s!' %
                              (item, w))
         elif w == 0:  # ignore items with 0 weight
-            pass
+            continue
         elif ws.weight + w > max_weight or k != prev_kind:
             new_ws = WeightedSequence([(item, w)])
             if ws:
-- 
2.43.0


From d281c8c8b6aaac45bd859404def21f6441eb865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 02/40] fix: the float validators must reject NaN

---
 openquake/commonlib/valid.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index 2a6a7e2..f45e462 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -77,6 +77,8 @@ class FloatRange(object):
 
     def __call__(self, value):
         f = float(value)
+        if f != f:
+            raise ValueError('%r is not a number' % value)
         if f > self.maxrange:
             raise ValueError('%r is bigger than the max, %r' %
                              (f, self.maxrange))
@@ -104,6 +106,8 @@ def namelist(text):
 def longitude(text):
     """String -> longitude float"""
     lon = float(text)
+    if lon != lon:
+        raise ValueError('longitude %s is not a number' % lon)
     if lon > 180.:
         raise ValueError('longitude %s > 180' % lon)
     elif lon < -180.:
@@ -114,6 +118,8 @@ def longitude(text):
 def latitude(text):
     """String -> latitude float"""
     lat = float(text)
+    if lat != lat:
+        raise ValueError('latitude %s is not a number' % lat)
     if lat > 90.:
         raise ValueError('latitude %s > 90' % lat)
     elif lat < -90.:
@@ -132,6 +138,8 @@ def positiveint(text):
 def positivefloat(text):
     """String -> positive float"""
     f = float(text)
+    if f != f:
+        raise ValueError('%r is not a number' % text)
     if f < 0:
         raise ValueError('float %d < 0' % f)
     return f
-- 
2.43.0


From 01e6593a75d411dd217f409193e00cd640b9ec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 03/40] fix: positivefloat must reject -inf with a ValueError

---
 openquake/commonlib/valid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index f45e462..0fb4808 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -141,7 +141,7 @@ def positivefloat(text):
     if f != f:
         raise ValueError('%r is not a number' % text)
     if f < 0:
-        raise ValueError('float %d < 0' % f)
+        raise ValueError('float %s < 0' % f)
     return f
 
 
-- 
2.43.0


From 66bc5f4225a715eca52b668238fe43cc93a8e719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 04/40] fix: a name followed by a newline is not a name

---
 openquake/commonlib/valid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index 0fb4808..096ddd7 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -67,7 +67,7 @@ class Regex(object):
                              (value, self.rx.pattern))
         return value
 
-name = Regex(r'^[a-zA-Z_]\w*$')
+name = Regex(r'^[a-zA-Z_]\w*\Z')
 
 
 class FloatRange(object):
-- 
2.43.0


From 12448e170e682bdda25c87877d967f0a0af404ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 05/40] fix: IMTstr must match the whole text

---
 openquake/commonlib/valid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index 096ddd7..1ccd2a0 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -170,7 +170,8 @@ IMT = collections.namedtuple('IMT', 'imt saPeriod saDamping')
 
 def IMTstr(text):
     """String -> namedtuple with fields imt, saPeriod, saDamping"""
-    mo = re.match(r'PGA|PGV|PGD|IA|RSD|MMI|SA\((\d+\.?\d*)\)', text)
+    mo = re.match(
+        r'(?:PGA|PGV|PGD|IA|RSD|MMI|SA\((\d+\.?\d*)\))\Z', text)
     if mo is None:
         raise ValueError('%r is not a valid IMT' % text)
     period = mo.group(1)
-- 
2.43.0


From 22a8785022fd24d695e4bcf3c72d1f23ccf480a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 06/40] fix: split_in_blocks must accept sequences with no
 weight

---
 openquake/commonlib/general.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index 1576f2b..3260a51 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -215,6 +215,8 @@ def split_in_blocks(sequence, hint, weight=lambda item: 1,
     assert hint > 0, hint
     items = list(sequence)
     total_weight = float(sum(weight(item) for item in items))
+    if total_weight == 0:  # nothing to split
+        return block_splitter(items, 1, weight, kind)
     return block_splitter(items, math.ceil(total_weight / hint), weight, kind)
 
 
-- 
2.43.0


From 84de2834a1bbd2c9242bf86ac83f4155a1f4a9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 07/40] fix: equality of WeightedSequences must consider their
 length

---
 openquake/commonlib/general.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index 3260a51..9039522 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -107,7 +107,14 @@ class WeightedSequence(collections.MutableSequence):
         """
         Compare for equality the items contained in self
         """
-        return all(x == y for x, y in zip(self, other))
+        return len(self) == len(other) and all(
+            x == y for x, y in zip(self, other))
+
+    def __ne__(self, other):
+        """
+        Opposite of equal
+        """
+        return not self == other
 
     def __repr__(self):
         """
-- 
2.43.0


From 1e3d7e54f62207ac48328a4ae8ae84dacdf6081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 08/40] fix: deep_eq must answer on any difference and
 propagate the exclusions

---
 openquake/commonlib/general.py | 38 ++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index 9039522..dc53c4d 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -255,6 +255,15 @@ def deep_eq(a, b, decimal=7, exclude=None):
     return True, ''
 
 
+def _is_seq(obj):
+    """True for lists, tuples and iterables which are neither strings, nor
+    dictionaries, nor objects compared by their attributes."""
+    return isinstance(obj, (list, tuple)) or (
+        isinstance(obj, collections.Iterable) and
+        not isinstance(obj, (basestring, dict)) and
+        not hasattr(obj, '__dict__'))
+
+
 def _deep_eq(a, b, decimal, exclude=None):
     """Do the actual deep comparison. If the two items up for comparison are
     not equal, a :exception:`AssertionError` is raised (to
@@ -265,24 +274,29 @@ def _deep_eq(a, b, decimal, exclude=None):
 
     def _test_dict(a, b):
         """Compare `dict` types recursively."""
-        assert len(a) == len(b), (
+        assert isinstance(b, dict), "%s is not a dict" % repr(b)
+        a_keys = [key for key in a if not key in exclude]
+        b_keys = [key for key in b if not key in exclude]
+        assert len(a_keys) == len(b_keys), (
             "Dicts %(a)s and %(b)s do not have the same length."
             " Actual lengths: %(len_a)s and %(len_b)s") % dict(
-            a=a, b=b, len_a=len(a), len_b=len(b))
+            a=a, b=b, len_a=len(a_keys), len_b=len(b_keys))
 
-        for key in a:
-            if not key in exclude:
-                _deep_eq(a[key], b[key], decimal)
+        for key in a_keys:
+            assert key in b, "Key %r is not in %s" % (key, b)
+            _deep_eq(a[key], b[key], decimal, exclude)
 
     def _test_seq(a, b):
         """Compare `list` or `tuple` types recursively."""
+        assert _is_seq(b), "%s is not a sequence" % repr(b)
+        a, b = list(a), list(b)
         assert len(a) == len(b), (
             "Sequences %(a)s and %(b)s do not have the same length."
             " Actual lengths: %(len_a)s and %(len_b)s") % \
             dict(a=a, b=b, len_a=len(a), len_b=len(b))
 
         for i, item in enumerate(a):
-            _deep_eq(item, b[i], decimal)
+            _deep_eq(item, b[i], decimal, exclude)
 
     # lists or tuples
     if isinstance(a, (list, tuple)):
@@ -296,10 +310,10 @@ def _deep_eq(a, b, decimal, exclude=None):
             "%s and %s are different classes") % (a.__class__, b.__class__)
         _test_dict(a.__dict__, b.__dict__)
     # iterables (not strings)
-    elif isinstance(a, collections.Iterable) and not isinstance(a, str):
+    elif _is_seq(a):
         # If there's a generator or another type of iterable, treat it as a
         # `list`. NOTE: Generators will be exhausted if you do this.
-        _test_seq(list(a), list(b))
+        _test_seq(a, b)
     # objects with __slots__
     elif hasattr(a, '__slots__'):
         assert a.__class__ == b.__class__, (
@@ -308,12 +322,18 @@ def _deep_eq(a, b, decimal, exclude=None):
             "slots %s and %s are not the same") % (a.__slots__, b.__slots__)
         for slot in a.__slots__:
             if not slot in exclude:
-                _deep_eq(getattr(a, slot), getattr(b, slot), decimal)
+                assert hasattr(a, slot) == hasattr(b, slot), (
+                    "Attribute %s is set only once" % slot)
+                if hasattr(a, slot):
+                    _deep_eq(getattr(a, slot), getattr(b, slot), decimal,
+                             exclude)
     else:
         # Objects must be primitives
 
         # Are they numbers?
         if isinstance(a, (int, long, float, complex)):
+            assert isinstance(b, (int, long, float, complex)), (
+                "%s is not a number" % repr(b))
             numpy.testing.assert_almost_equal(a, b, decimal=decimal)
         else:
             assert a == b, "%s != %s" % (a, b)
-- 
2.43.0


From 8ead013fb688b35c6869417bf9d9c8e2123c058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:43 +0000
Subject: [PATCH 09/40] fix: TaskManager.wait passed itself twice

---
 openquake/commonlib/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 5da89ee..adb287e 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -257,7 +257,7 @@ class TaskManager(object):
 
         :returns: the total number of tasks that were spawned
         """
-        return self.aggregate_results(self, lambda acc, res: acc + 1, 0)
+        return self.aggregate_results(lambda acc, res: acc + 1, 0)
 
 
 def map_reduce(function, function_args, agg, acc, name=None):
-- 
2.43.0


From 8f845c0939453f85e1ca78fe897432dd85bb4ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:43 +0000
Subject: [PATCH 10/40] fix: the progress percentage must be exact

---
 openquake/commonlib/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index adb287e..895d199 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -114,7 +114,7 @@ def log_percent_gen(taskname, todo, progress):
     done = 1
     prev_percent = 0
     while done < todo:
-        percent = int(float(done) / todo * 100)
+        percent = done * 100 // todo
         if percent > prev_percent:
             progress('%s %3d%%', taskname, percent)
             prev_percent = percent
-- 
2.43.0


From 88d5005679214c8ca53173bf460c3d5b7e4dfc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:43 +0000
Subject: [PATCH 11/40] fix: safely_call must trap exceptions without a text

---
 openquake/commonlib/parallel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 895d199..ad012af 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -90,7 +90,11 @@ def safely_call(func, args, pickle=False):
     except:
         etype, exc, tb = sys.exc_info()
         tb_str = ''.join(traceback.format_tb(tb))
-        res = '\n%s%s: %s' % (tb_str, etype.__name__, exc), etype
+        try:
+            msg = str(exc)
+        except Exception:  # the exception cannot be converted
+            msg = repr(exc.args)
+        res = '\n%s%s: %s' % (tb_str, etype.__name__, msg), etype
     if pickle:
         return Pickled(res)
     return res
-- 
2.43.0


From f4e57d24a532bd043edada2f854dbd23c19a1bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:43 +0000
Subject: [PATCH 12/40] fix: PerformanceMonitor must drop processes that ended

---
 openquake/commonlib/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index ad012af..4f0476d 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -332,7 +332,7 @@ class PerformanceMonitor(object):
         for proc in list(self._procs):
             try:
                 rss = proc.get_memory_info().rss
-            except psutil.AccessDenied:
+            except (psutil.AccessDenied, psutil.NoSuchProcess):
                 # no access to information about this process
                 # don't not try to check it anymore
                 self._procs.remove(proc)
-- 
2.43.0


From e53e8ff52cd104f56ca71d3e71ebfc40608fe087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:43 +0000
Subject: [PATCH 13/40] fix: PerformanceMonitor must subtract measures of the
 same process

---
 openquake/commonlib/parallel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 4f0476d..13452df 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -351,7 +351,10 @@ class PerformanceMonitor(object):
     def __exit__(self, etype, exc, tb):
         "Call .stop"
         self.exc = exc
+        procs = list(self._procs)  # the processes measured at the start
         self.stop_mem = self.measure_mem()
+        self.start_mem = [m1 for proc, m1 in zip(procs, self.start_mem)
+                          if proc in self._procs]  # still readable
         self.mem = [m2 - m1 for m1, m2 in zip(self.start_mem, self.stop_mem)]
         self.duration = time.time() - self._start_time
         self.on_exit()
-- 
2.43.0


From 82c74bf6deb1b00660373e81c158d946f575c555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:02 +0000
Subject: [PATCH 14/40] fix: pickle_sequence must not be fooled by reused ids

---
 openquake/commonlib/parallel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 13452df..e436d17 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -166,6 +166,7 @@ def pickle_sequence(objects):
     """
     cache = {}
     out = []
+    objects = list(objects)  # keep them alive, or the ids could be reused
     for obj in objects:
         obj_id = id(obj)
         if obj_id not in cache:
-- 
2.43.0


From 2bcb425021b0314f57b2d706ad85266400326406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:56 +0000
Subject: [PATCH 15/40] fix: Table must refuse duplicates before changing
 anything

---
 openquake/commonlib/record.py | 36 ++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 664c75c..cadfd41 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -433,14 +433,15 @@ class Table(collections.MutableSequence):
         return self._records[i]
 
     def __setitem__(self, i, new_record):
-        """Set the i-th record"""
-        # TODO: the fk dictionaries must be updated!
-        # TODO: there is no unique check here!
+        """
+        Set the i-th record. Raise a KeyError if the new record duplicates
+        a record different from the one it replaces.
+        """
+        old_record = self._records[i]
+        self._check_unique(new_record, i, old_record)
         for name, unique in self._unique_data.iteritems():
-            old_key = getattr(self._records[i], name)
-            new_key = getattr(new_record, name)
-            del unique.dict[old_key]
-            unique.dict[new_key] = new_record
+            del unique.dict[getattr(old_record, name)]
+            unique.dict[getattr(new_record, name)] = new_record
         self._records[i] = new_record
 
     def __delitem__(self, i):
@@ -459,20 +460,29 @@ class Table(collections.MutableSequence):
         (in terms of unique constraints, including the primary
         key) raises a KeyError.
         """
+        self._check_unique(rec, position)
+        for name, unique in self._unique_data.iteritems():
+            unique.dict[getattr(rec, name)] = rec
+        self._records.insert(position, rec)
+
+    def reverse(self):
+        """Reverse the order of the records"""
+        self._records.reverse()
+
+    def _check_unique(self, rec, position, old_record=None):
+        """
+        Raise a KeyError if there is a stored record different from
+        the old_record and with the same unique keys as the given one.
+        """
         for name, unique in self._unique_data.iteritems():
             key = getattr(rec, name)
-            try:
-                rec = unique.dict[key]
-            except KeyError:  # not inserted yet
-                unique.dict[key] = rec
-            else:
+            if unique.dict.get(key, old_record) is not old_record:
                 msg = []
                 for k, name in zip(key, unique.names):
                     msg.append('%s=%s' % (name, k))
                 raise KeyError('%s:%d:Duplicated record:%s' %
                                (self.recordtype.__name__, position,
                                 ','.join(msg)))
-        self._records.insert(position, rec)
 
     def getrecord(self, *pkey):
         """
-- 
2.43.0


From bd79cd72fde5b35d7a92ec7622a1a14ac0285129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:33 +0000
Subject: [PATCH 16/40] fix: comparing records or tables of different length
 must not fail

---
 openquake/commonlib/record.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index cadfd41..9f90d07 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -351,7 +351,8 @@ class Record(collections.Sequence):
         A record is equal to another sequence if they have the same
         length and content.
         """
-        assert len(self) == len(other)
+        if len(self) != len(other):
+            return False
         return all(x == y for x, y in zip(self, other))
 
     def __ne__(self, other):
@@ -500,7 +501,8 @@ class Table(collections.MutableSequence):
         A table is equal to another sequence if they have the same
         length and content.
         """
-        assert len(self) == len(other)
+        if len(self) != len(other):
+            return False
         return all(x == y for x, y in zip(self, other))
 
     def __ne__(self, other):
-- 
2.43.0


From d874a2cf9bb10bbb9a234bd4abc5b76bd12589b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:24 +0000
Subject: [PATCH 17/40] fix: a branch set must not replace the child of a
 branch silently

---
 openquake/commonlib/logictree.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 10b58da..f4a4693 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -556,6 +556,11 @@ class BaseLogicTree(object):
         to branches selectively.
         """
         for branch in self.open_ends:
+            if branch.child_branchset is not None:
+                raise ValidationError(
+                    branchset_node, self.filename, self.basepath,
+                    'branch %r already has child branchset' % branch.branch_id
+                )
             branch.child_branchset = branchset
 
     def validate_tree(self, tree_node, root_branchset):
-- 
2.43.0


From 105051bbf199fd2956d658ba29655e9fb9c83135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:59 +0000
Subject: [PATCH 18/40] fix: skipping a whole branching level must not cut the
 GMPE logic tree

---
 openquake/commonlib/logictree.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index f4a4693..3ba2e04 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -450,10 +450,12 @@ class BaseLogicTree(object):
         can have child branchsets (if there is one on the next level).
         """
         new_open_ends = set()
+        skipped = 0
         branchsets = branchinglevel_node.findall('{%s}logicTreeBranchSet' %
                                                  self.NRML)
         for number, branchset_node in enumerate(branchsets):
             if self.skip_branchset_condition(branchset_node.attrib):
+                skipped += 1
                 continue
             branchset = self.parse_branchset(branchset_node, depth, number,
                                              validate)
@@ -464,6 +466,10 @@ class BaseLogicTree(object):
                 self.apply_branchset(branchset_node, branchset)
             for branch in branchset.branches:
                 new_open_ends.add(branch)
+        if skipped and skipped == len(branchsets):
+            # the level does not count: what follows has to be attached
+            # to the branches of the previous level
+            return
         self.open_ends.clear()
         self.open_ends.update(new_open_ends)
 
-- 
2.43.0


From 9c30c2952f55be2619f9ca4756ca9761b4d2f9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:59 +0000
Subject: [PATCH 19/40] fix: a GMPE branch set without region type must be a
 validation error

---
 openquake/commonlib/logictree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 3ba2e04..4bb7f84 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -1031,8 +1031,10 @@ class GMPELogicTree(BaseLogicTree):
 
         :param attrs: a dictionary with the attributes of the branchset
         """
-        return (attrs['applyToTectonicRegionType']
-                not in self.tectonic_region_types)
+        # NB: a branchset without a tectonic region type is not skipped, so
+        # that it is refused by the validation
+        trt = attrs.get('applyToTectonicRegionType')
+        return trt is not None and trt not in self.tectonic_region_types
 
     def make_trt_to_gsim(self, branch_ids):
         """
-- 
2.43.0


From 27ac751edae98950df578e98975caab729181e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:59 +0000
Subject: [PATCH 20/40] fix: the branches of the GSIM logic tree must be
 ordered by branch set

---
 openquake/commonlib/logictree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 4bb7f84..d2eb864 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -1158,8 +1158,8 @@ class GMPELogicTree(BaseLogicTree):
 
 BranchTuple = namedtuple('BranchTuple', 'bset, id, uncertainty, weight')
 BranchTuple.__lt__ = lambda self, other: (
-    self.bset['branchSetID'] < other.bset['branchSetID']
-    and self.id < other.id)
+    (self.bset['branchSetID'], self.id)
+    < (other.bset['branchSetID'], other.id))
 
 class InvalidLogicTree(Exception):
     pass
-- 
2.43.0


From 58bd599f5d15e0dd39eeba7b0f7c7116011d5ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:34 +0000
Subject: [PATCH 21/40] fix: a SourceCollector built from a list looped forever

---
 openquake/commonlib/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 5cd4065..551e91a 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -50,11 +50,11 @@ class SourceCollector(object):
     def __init__(self, trt, sources=None, num_ruptures=0,
                  min_mag=None, max_mag=None):
         self.trt = trt
-        self.sources = sources or []
+        self.sources = []
         self.num_ruptures = num_ruptures
         self.min_mag = min_mag
         self.max_mag = max_mag
-        for src in self.sources:
+        for src in sources or []:
             self.update(src)
         self.filtered_sources = (0, 0)  # (filtered, total)
 
-- 
2.43.0


From c80911de49a824be3c6da2e7c3183debbec20542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:11 +0000
Subject: [PATCH 22/40] fix: split_fault_source must ignore the zero rates

---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 551e91a..4818d61 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -664,7 +664,7 @@ def split_fault_source(src):
                 min_mag=mag, bin_width=src.mfd.bin_width,
                 occurrence_rates=[rate])
             i += 1
-        yield new_src
+            yield new_src
 
 
 def split_source(src, area_source_discretization):
-- 
2.43.0


From 8dc607025a10f376541f2b64e8b4ee28e68f650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:36 +0000
Subject: [PATCH 23/40] fix: gen_blocks must accept small integer weights

---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 4818d61..27a1438 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -133,7 +133,7 @@ class SourceCollector(object):
         assert num_sources, 'No sources for TRT=%s!' % self.trt
         return block_splitter(
             self._filter_and_split_sources(src_filter, discr),
-            max_weight * num_sources / (num_sources + 100),
+            max_weight * num_sources / float(num_sources + 100),
             self.update_num_ruptures)
 
     def __repr__(self):
-- 
2.43.0


From b306ebfdb109bd8c2333403f89a09484e2e9872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:36 +0000
Subject: [PATCH 24/40] fix: the sources discarded last must be counted too

---
 openquake/commonlib/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 27a1438..e7c0f54 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -117,6 +117,7 @@ class SourceCollector(object):
                     self.filtered_sources = (len(srcs), tot_sources)
             else:
                 tot_sources += 1
+        self.filtered_sources = (len(srcs), tot_sources)
         self.sources = srcs  # throw away unfiltered sources
 
     def gen_blocks(self, src_filter, max_weight, discr):
-- 
2.43.0


From b5ddfcfe2e913f0cc5d432a73c95db5c2e85f225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:25 +0000
Subject: [PATCH 25/40] fix: converting a planar surface must not change the
 NRML object

---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index e7c0f54..7ce31a7 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -491,7 +491,7 @@ class NrmlHazardlibConverter(object):
             # A collection of planar surfaces
             planar_surfaces = []
             for planar_surface in src.surface:
-                kwargs = planar_surface.__dict__
+                kwargs = planar_surface.__dict__.copy()
                 kwargs.update(dict(mesh_spacing=self.rupture_mesh_spacing))
 
                 planar_surfaces.append(geo.PlanarSurface(**kwargs))
-- 
2.43.0


From 437e4ca2755efd2443bef9a97bd83a559be9d9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 26/40] fix: the paths of the source models must be stripped

---
 openquake/commonlib/readini.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/readini.py b/openquake/commonlib/readini.py
index 1d1f574..38d3685 100644
--- a/openquake/commonlib/readini.py
+++ b/openquake/commonlib/readini.py
@@ -21,7 +21,7 @@ def _collect_source_model_paths(smlt):
             for branch in branch_set.xpath(
                     './nrml:logicTreeBranch/nrml:uncertaintyModel',
                     namespaces=nrmllib.PARSE_NS_MAP):
-                src_paths.append(branch.text)
+                src_paths.append(branch.text.strip())
     return sorted(set(src_paths))
 
 
-- 
2.43.0


From 00b53413fd3857ae93eddfe5b5b1c0efabd9c122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 27/40] fix: the no-damage limit of the fragility functions was
 never used

FragilityDiscrete.to_node looked for 'noDamageLimit' in the dictionary of
the function sets, keyed by ordinal, instead of in the attributes of the
function set.
---
 openquake/commonlib/converter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index e99d53c..01feeb0 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -193,12 +193,13 @@ class FragilityDiscrete(Converter):
         tset = self.tableset
         frag = tset.tableFragilityDiscrete[0].to_node()
         ffs_node = record.nodedict(tset.tableFFSetDiscrete)
-        nodamage = float(ffs_node['noDamageLimit']) \
-            if 'noDamageLimit' in ffs_node else None
         frag.nodes.extend(ffs_node.values())
         for (ls, ordinal), data in groupby(
                 tset.tableFFDataDiscrete, ['limitState', 'ffs_ordinal']):
             data = list(data)
+            ffs = ffs_node[(ordinal,)]
+            nodamage = float(ffs['noDamageLimit']) \
+                if 'noDamageLimit' in ffs.attrib else None
 
             # check that we can instantiate a FragilityFunction in risklib
             if nodamage:
-- 
2.43.0


From fc93a3b5de25882bdc6c54fa58fac0d4f6262a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 28/40] fix: exposure occupancies must not be lost

Exposure.to_node knew only the periods of the first asset with
occupancies, so the occupancies of other assets at other periods were
lost.
---
 openquake/commonlib/converter.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 01feeb0..8dc83e8 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -387,13 +387,8 @@ class Exposure(Converter):
                 # insert after the description node
                 exp.nodes.insert(1, Node('conversions', {}, nodes=[
                     Node('area', {'type': area_type, 'unit': area_unit})]))
-        if t.tableOccupancy:
-            # extract the occupancies corresponding to the first asset
-            _asset_ref, occupancies = groupby(
-                t.tableOccupancy, ['asset_ref']).next()
-            periods = sorted(occ.period for occ in occupancies)
-        else:
-            periods = []
+        # an asset can have only some of the periods
+        periods = sorted(set(occ.period for occ in t.tableOccupancy))
         exp.assets.nodes = self._assetgenerator(
             t.tableAsset, cost_types, periods)
         return exp
-- 
2.43.0


From fc12cc5d05706e0db5315f3f3f8c6743572a20db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 29/40] fix: the conversions of an exposure are optional

The area of an exposure of population was lost, an exposure of buildings
without deductible or limit could not be converted, and one without area
got an area with empty type and unit.
---
 openquake/commonlib/converter.py | 45 ++++++++++++++++----------------
 openquake/commonlib/records.py   | 15 ++++++-----
 2 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 8dc83e8..f739f31 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -278,6 +278,16 @@ class FragilityContinuous(Converter):
 ############################# exposure #################################
 
 
+def optional_attrib(node, name):
+    """
+    Return the attributes of the subnode with the given name, or an
+    empty dictionary if there is no such subnode.
+    """
+    for subnode in node.getnodes(name):
+        return subnode.attrib
+    return {}
+
+
 class Exposure(Converter):
     """A converter for exposureModel nodes"""
 
@@ -292,29 +302,18 @@ class Exposure(Converter):
                 yield records.CostType(c['name'], c['type'], c['unit'],
                                        c.attrib.get('retrofittedType', ''),
                                        c.attrib.get('retrofittedUnit', ''))
-            conv = node.conversions
-            try:
-                area = conv.area
-                area_type = area['type']
-                area_unit = area['unit']
-            except NameError:
-                area_type = ''
-                area_unit = ''
-            yield records.Exposure(
-                node['id'],
-                node['category'],
-                taxonomysource,
-                node.description.text.strip(),
-                area_type,
-                area_unit,
-                conv.deductible['isAbsolute'],
-                conv.insuranceLimit['isAbsolute'])
-        else:
-            yield records.Exposure(
-                node['id'],
-                node['category'],
-                taxonomysource,
-                node.description.text.strip())
+        # the conversions are optional
+        [conv] = node.getnodes('conversions')[:1] or [Node('conversions')]
+        area = optional_attrib(conv, 'area')
+        yield records.Exposure(
+            node['id'],
+            node['category'],
+            taxonomysource,
+            node.description.text.strip(),
+            area.get('type', ''),
+            area.get('unit', ''),
+            optional_attrib(conv, 'deductible').get('isAbsolute', ''),
+            optional_attrib(conv, 'insuranceLimit').get('isAbsolute', ''))
 
         locations = {}  # location -> id
         loc_counter = itertools.count(1)
diff --git a/openquake/commonlib/records.py b/openquake/commonlib/records.py
index 5590e9f..bbcd90c 100644
--- a/openquake/commonlib/records.py
+++ b/openquake/commonlib/records.py
@@ -232,13 +232,16 @@ class Exposure(Record):
         node.append(Node('description', text=self['description']))
         if node['category'] == 'buildings':
             conv = Node('conversions')
-            conv.append(Node('area', dict(type=self['area_type'],
-                                          unit=self['area_unit'])))
+            if self['area_type'] or self['area_unit']:
+                conv.append(Node('area', dict(type=self['area_type'],
+                                              unit=self['area_unit'])))
             conv.append(Node('costTypes'))
-            conv.append(Node('deductible', dict(
-                isAbsolute=self['deductible_is_absolute'])))
-            conv.append(Node('insuranceLimit', dict(
-                isAbsolute=self['insurance_limit_is_absolute'])))
+            if self['deductible_is_absolute']:
+                conv.append(Node('deductible', dict(
+                    isAbsolute=self['deductible_is_absolute'])))
+            if self['insurance_limit_is_absolute']:
+                conv.append(Node('insuranceLimit', dict(
+                    isAbsolute=self['insurance_limit_is_absolute'])))
             node.append(conv)
         node.append(Node('assets'))
         return node
-- 
2.43.0


From 316f0700407105d7b5ebd47bc810f5d110747f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 30/40] fix: the fields of a single gmfSet refer to the set
 with id 0

The Gmf records had the id 1 (an integer, not a text) while the records of
the set and of the data had the id 0.
---
 openquake/commonlib/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index f739f31..ab3db14 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -449,7 +449,7 @@ class GmfCollection(Converter):
                 imt = gmf['IMT']
                 if imt == 'SA':
                     imt += '(%s)' % gmf['saPeriod']
-                yield records.Gmf(1, imt, '')
+                yield records.Gmf('0', imt, '')
                 for n in gmf:
                     yield records.GmfData(
                         '0', imt, '', n['lon'], n['lat'], n['gmv'])
-- 
2.43.0


From 1a4cc33b8e09034b3ae6aec86d7f43cdca0e36f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 31/40] fix: reading a file of a MemArchive must not affect
 later reads

All the readers of a file shared the same position, so a file which was not
closed (as the ones searched for invalid records) was empty, or truncated,
for the next reader.
---
 openquake/commonlib/csvmanager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 8d58bd4..f570671 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -219,9 +219,10 @@ class MemArchive(Archive):
             self.dic[name] = f = FileObject(name, '')
             return f
         try:
-            return self.dic[name]
+            data = self.dic[name].fileobj.getvalue()
         except KeyError:
             raise NotInArchive(name)
+        return FileObject(name, data)  # each reader has its own position
 
     def extract_filenames(self, prefix=''):
         """
-- 
2.43.0


From 2dba83c0d68f30b0b17c9f81a93b3e97f776a68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 32/40] fix: CSV files not named after a record type must be
 ignored

A file like p__Node.csv or p__valid.csv made the search of the record files
fail with an AttributeError, since every name of the module records was
considered a record type.
---
 openquake/commonlib/csvmanager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index f570671..d0d453c 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -313,7 +313,8 @@ class CSVManager(object):
             if not recordcsv.endswith('.csv'):
                 continue
             recordtype = getattr(records, recordcsv[:-4], None)
-            if recordtype is None:
+            if (not isinstance(recordtype, record.MetaRecord) or
+                    recordtype is record.Record):
                 continue
             if not prefix in managers:
                 man = self.__class__(self.archive, prefix)
-- 
2.43.0


From a460d603e49ec00066a9391296fdeb4a0a41e887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 33/40] fix: missing files of zip and directory archives must
 raise NotInArchive

The tables of a model are optional, but only the in-memory archives raised
the exception which CSVManager.get_tableset expects for a missing one, so
for instance an exposure of population could not be converted.
---
 openquake/commonlib/csvmanager.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index d0d453c..cc1cd8e 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -168,7 +168,10 @@ class ZipArchive(Archive):
             return TempFile(self.zip, name, mode)
         else:
             # open for reading
-            return self.zip.open(name, mode)
+            try:
+                return self.zip.open(name, mode)
+            except KeyError:
+                raise NotInArchive(name)
 
     def extract_filenames(self, prefix=''):
         """
@@ -192,7 +195,10 @@ class DirArchive(Archive):
         self.opened = set()
 
     def _open(self, name, mode):
-        return open(os.path.join(self.name, name), mode)
+        path = os.path.join(self.name, name)
+        if mode.startswith('r') and not os.path.exists(path):
+            raise NotInArchive(name)
+        return open(path, mode)
 
     def extract_filenames(self, prefix=''):
         """
-- 
2.43.0


From ac9d90eedb0b96b33438ab9199dfcae1f3b51c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 34/40] fix: archives with several models can be converted to
 NRML

convert_to_nrml has a manager for each prefix, but get_tableset looked for
the converter of the whole archive, so it failed with a
MultipleManagerError for two or more prefixes.
---
 openquake/commonlib/csvmanager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index cc1cd8e..b7dad4a 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -335,6 +335,8 @@ class CSVManager(object):
         found (this happens if there are no files following the
         naming conventions).
         """
+        if self.convertertype is not converter.Converter:
+            return self.convertertype  # set by _getmanagers
         managers = self._getmanagers()
         if not managers:
             raise NotInArchive(
-- 
2.43.0


From d21092314401a5e3d6d623c19b11884c0e1d717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 35/40] fix: NRMLconvert must work on zip archives of CSV files

The input was opened in mode r+, which ZipFile does not have, so every
conversion from a zip archive failed with a RuntimeError.
---
 openquake/commonlib/csvmanager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index b7dad4a..fc9adc8 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -242,7 +242,8 @@ def mkarchive(pathname, mode):
     Return a ZipArchive or a DirArchive depending on the pathname extension
     """
     if pathname.endswith('.zip'):
-        return ZipArchive(pathname, mode)
+        # a ZipFile has no mode r+, but it can be read in append mode
+        return ZipArchive(pathname, 'a' if mode == 'r+' else mode)
     else:
         return DirArchive(pathname, mode)
 
-- 
2.43.0


From 8414c7f85d500ddbe24caa39abdafffe0c2be864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 36/40] fix: NRMLconvert must not convert invalid records if
 the limit is 0

With a limit of zero (or less) no invalid record was looked for and the
NRML was written from invalid CSV files.
---
 bin/NRMLconvert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/NRMLconvert.py b/bin/NRMLconvert.py
index 2d2b0a8..9a248f5 100644
--- a/bin/NRMLconvert.py
+++ b/bin/NRMLconvert.py
@@ -51,7 +51,9 @@ def main(input, output=None, limit=None):
     messages are printed on stdout in case of errors.
     """
     if limit is not None:
-        limit = int(limit)  # max number of errors
+        # max number of errors; at least one has to be looked for, otherwise
+        # invalid records would be converted
+        limit = max(int(limit), 1)
     if input.endswith('.xml'):
         if not output:
             sys.exit('Please specify an output archive')
-- 
2.43.0


From 5bcbdaf0a2f66bf9bb3adbad95af1f97ac331109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 37/40] fix: a record built without a field has the default of
 the field

---
 openquake/commonlib/record.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 9f90d07..045f37f 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -185,7 +185,7 @@ class MetaRecord(abc.ABCMeta):
         # a savvy user however can provide her own implementations
         # and they will have the precedence against the default ones
         if '__init__' not in dic:
-            dic['__init__'] = mcl.mkinit(fieldnames)
+            dic['__init__'] = mcl.mkinit(fields)
         if '_name2index' not in dic:
             dic['_name2index'] = _name2index
         if 'fields' not in dic:
@@ -214,13 +214,13 @@ class MetaRecord(abc.ABCMeta):
                 setattr(cls, n, fkey)
 
     @staticmethod
-    def mkinit(fieldnames):
+    def mkinit(fields):
         """Build the __init__ method for record subclasses"""
-        fields = ', '.join(fieldnames)
-        defaults = ', '.join("%s=''" % f for f in fieldnames)
+        names = ', '.join(f.name for f in fields)
+        defaults = ', '.join('%s=%r' % (f.name, f.default) for f in fields)
         templ = '''def __init__(self, %s):
         self.row = [%s]
-        self.init()''' % (defaults, fields)
+        self.init()''' % (defaults, names)
         dic = {}
         try:
             exec(templ, dic)
-- 
2.43.0


From 4fc0f05e3ec80b0a8c10cfa2ba9294bb10c87827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 38/40] fix: several duplicated names in a key are refused with
 their names

---
 openquake/commonlib/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 045f37f..5bccce3 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -87,7 +87,7 @@ class Unique(object):
     loc.unique_fields returns the tuple (lon, lat), as UTF8-encoded strings.
     """
     def __init__(self, *names):
-        assert len(set(names)) == len(names), 'Duplicates in %s!' % names
+        assert len(set(names)) == len(names), 'Duplicates in %r!' % (names,)
         self.names = names
         self.name = None  # set by MetaRecord
         self.recordtype = None  # set by MetaRecord
-- 
2.43.0


From 3d983de21dd8f5c9bd36cdb4e87f7faa26669698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 39/40] fix: the CSV representation of a record quotes
 separators and newlines

---
 openquake/commonlib/record.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 5bccce3..632e6e8 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -38,9 +38,11 @@ ValueError if the string is invalid.
 """
 
 import abc
+import csv
 import itertools
 import operator
 import collections
+import StringIO
 
 
 class InvalidRecord(Exception):
@@ -370,7 +372,9 @@ class Record(collections.Sequence):
 
     def __str__(self):
         """A CSV representation of the record"""
-        return ','.join(self.row)
+        out = StringIO.StringIO()
+        csv.writer(out).writerow(self.row)
+        return out.getvalue()[:-2]  # without the line terminator
 
 
 def nodedict(records):
-- 
2.43.0


From a7ed524890b8cd959636b44bcc60869d7c891e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 40/40] fix: writetmp must not leave the file of an empty
 content open

---
 openquake/commonlib/general.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index dc53c4d..e385fc0 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -354,8 +354,7 @@ def writetmp(content=None, dir=None, prefix="tmp", suffix="tmp"):
         if not os.path.exists(dir):
             os.makedirs(dir)
     fh, path = tempfile.mkstemp(dir=dir, prefix=prefix, suffix=suffix)
-    if content:
-        fh = os.fdopen(fh, "w")
-        fh.write(content)
-        fh.close()
+    with os.fdopen(fh, "w") as f:
+        if content:
+            f.write(content)
     return path
-- 
2.43.0

