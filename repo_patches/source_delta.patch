From d1fa87fde1b4a5d30c5b4556d02002b77242fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:53 +0000
Subject: [PATCH 01/86] fix: survive memory exhaustion when a mutable bitset is
 created

The initial field block was used before it was checked, and the half
initialized set could not be deallocated.
---
 src/sets/bitset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index c282bc3..a4d5878 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -791,9 +791,9 @@ mutbitset_initset(NyMutBitSetObject *v, NyImmBitSetObject *set)
         sf->hi = set->ob_field + Py_SIZE(set);
     } else {
         sf->set = immbitset_realloc(0, 1);
-        sf->lo = sf->hi = sf->set->ob_field;
         if (!sf->set)
             return -1;
+        sf->lo = sf->hi = sf->set->ob_field;
     }
     return 0;
 }
@@ -1349,7 +1349,7 @@ mutbitset_clear(NyMutBitSetObject *v)
     } else {
         NyBit i;
         for (i = 0; i < v->root->cur_size; i++)
-            Py_DECREF(v->root->ob_field[i].set);
+            Py_XDECREF(v->root->ob_field[i].set);
     }
     v->cur_field = 0;
     v->root = &v->fst_root;
-- 
2.43.0


From 3501b1c4bf384bb67f1e62d44e1c94b2b46546f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:53 +0000
Subject: [PATCH 02/86] fix: clearing a mutable bitset leaves it usable when
 memory is exhausted

---
 src/sets/bitset.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index a4d5878..5854864 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -378,7 +378,7 @@ static NyBitField *mutbitset_findpos(NyMutBitSetObject *v, NyBit pos);
 static int mutbitset_getrange_mut(NyMutBitSetObject *v, NySetField **slo, NySetField **shi);
 static int mutbitset_iop_iterable(NyMutBitSetObject *ms, int op, PyObject *v);
 static NyMutBitSetObject *mutbitset_new_from_arg(PyObject *arg);
-static int mutbitset_reset(NyMutBitSetObject *v, NyImmBitSetObject *set);
+static int mutbitset_reset(NyMutBitSetObject *v);
 
 static NySetField *root_ins1(NyMutBitSetObject *v, NySetField *sf, NyBit pos);
 static NyImmBitSetObject *immbitset_realloc(NyImmBitSetObject *self, NyBit size);
@@ -1680,15 +1680,27 @@ mutbitset_iop_immbitset(NyMutBitSetObject *v, int op, NyImmBitSetObject *w)
 }
 
 static int
-mutbitset_reset(NyMutBitSetObject *v, NyImmBitSetObject *set)
+mutbitset_reset(NyMutBitSetObject *v)
 {
+    /* Allocate the new field block before dropping the old contents, so that
+       the set is unchanged and usable if memory is exhausted. */
+    NyImmBitSetObject *set = immbitset_realloc(0, 1);
+    if (!set)
+        return -1;
     mutbitset_clear(v);
-    return mutbitset_initset(v, set);
+    if (mutbitset_initset(v, set) == -1) {
+        Py_DECREF(set);
+        return -1;
+    }
+    Py_DECREF(set);
+    /* The new block is room for fields, it has none yet. */
+    v->root->ob_field[0].hi = v->root->ob_field[0].lo;
+    return 0;
 }
 
 int NyMutBitSet_clear(NyMutBitSetObject *v)
 {
-    return mutbitset_reset(v, 0);
+    return mutbitset_reset(v);
 }
 
 
@@ -1733,7 +1745,7 @@ mutbitset_iop_mutset(NyMutBitSetObject *v, int op, NyMutBitSetObject *w)
         case NyBits_SUB:
         case NyBits_SUBR:
         case NyBits_XOR:
-            if (mutbitset_reset(v, 0) == -1)
+            if (mutbitset_reset(v) == -1)
                 return -1;
             break;
         default:
-- 
2.43.0


From 5abae71353754491d1cfb83377330a826cd9c049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:53 +0000
Subject: [PATCH 03/86] fix: check for failing reallocation of bitset storage

---
 src/sets/bitset.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 5854864..afcfb0a 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -902,6 +902,8 @@ union_realloc(NyUnionObject *self, NyBit size)
         _Py_DEC_REFTOTAL;
         ret = PyObject_Realloc(self,
             Py_TYPE(self)->tp_basicsize + Py_TYPE(self)->tp_itemsize * size);
+        if (!ret)
+            return (void *)PyErr_NoMemory();
         ret = (void *) PyObject_InitVar((void *)ret, Py_TYPE(ret), size);
         return ret;
     }
@@ -959,6 +961,8 @@ immbitset_realloc(NyImmBitSetObject *self, NyBit size)
         _Py_DEC_REFTOTAL;
         ret = PyObject_Realloc(self,
             Py_TYPE(self)->tp_basicsize + Py_TYPE(self)->tp_itemsize * upsize);
+        if (!ret)
+            return (void *)PyErr_NoMemory();
         ret = (void *) PyObject_InitVar((void *)ret, Py_TYPE(ret), upsize);
         return ret;
     }
-- 
2.43.0


From 88dcc42991292ff0c1cde4a6c569293d95a6426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:53 +0000
Subject: [PATCH 04/86] fix: failing to split a bitset segment leaves no empty
 segment behind

---
 src/sets/bitset.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index afcfb0a..650271a 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1085,8 +1085,13 @@ mutbitset_split_ins1(NyMutBitSetObject *v, NySetField *sf, NyBitField *f, NyBit
     if (!nsf)
         return 0;
     sf = v->root->ob_field + sfpos;
-    if (sf_realloc(nsf, b_size) == -1)
+    if (sf_realloc(nsf, b_size) == -1) {
+        /* Take the empty field out of the root again. */
+        NyUnionObject *root = v->root;
+        sfp_move(nsf, nsf + 1, &root->ob_field[root->cur_size] - (nsf + 1));
+        root->cur_size--;
         return 0;
+    }
     nsf->lo = nsf->set->ob_field + (Py_SIZE(nsf->set) - b_size) / 2;
     nsf->hi = nsf->lo + b_size;
     fp_move(nsf->lo, f, b_size);
-- 
2.43.0


From 965ce0fa439730db0aba9c75e40f633125fd6441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:53 +0000
Subject: [PATCH 05/86] fix: check for memory exhaustion when copying an
 immutable bitset

---
 src/sets/bitset.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 650271a..4748ce2 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -724,6 +724,8 @@ NyImmBitSet_SubtypeNewArg(PyTypeObject *type, PyObject *v)
     if (vt == BITSET) {
         NyImmBitSetObject *bs = (NyImmBitSetObject *)v;
         NyImmBitSetObject *ret = NyImmBitSet_SubtypeNew(type, Py_SIZE(bs));
+        if (!ret)
+            return 0;
         memcpy(ret->ob_field, bs->ob_field, sizeof(NyBitField) * Py_SIZE(bs));
         return ret;
     }
-- 
2.43.0


From 55d571daa7baf951eda9dde16461e08cbc7154a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:37 +0000
Subject: [PATCH 06/86] fix: report memory exhaustion when removing from a
 shared bitset

---
 src/sets/bitset.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 4748ce2..5f78ecb 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1148,11 +1148,13 @@ mutbitset_findpos(NyMutBitSetObject *v, NyBit pos)
 
 
 static NyBitField *
-mutbitset_findpos_mut(NyMutBitSetObject *v, NyBit pos)
+mutbitset_findpos_mut(NyMutBitSetObject *v, NyBit pos, int *err)
 {
+    /* Returns 0 if not found, and also, with *err set, on failure. */
     NyBitField *f = v->cur_field;
     NyUnionObject *root;
     NySetField *sf;
+    *err = 0;
     if (f && f->pos == pos)
         return f;
     root = v->root;
@@ -1174,6 +1176,8 @@ mutbitset_findpos_mut(NyMutBitSetObject *v, NyBit pos)
                 /* It was found but some struct needs to be copied.
                    Just research in ins mode. */
                 f = mutbitset_findpos_ins(v, pos);
+                if (!f)
+                    *err = -1;
             }
         }
     }
@@ -1446,8 +1450,9 @@ mutbitset_iop_field(NyMutBitSetObject *v, int op, NyBitField *w)
         break;
     case NyBits_SUB:
         if (w->bits) {
-            f = mutbitset_findpos_mut(v, w->pos);
-            if (!f)  return 0;
+            int err;
+            f = mutbitset_findpos_mut(v, w->pos, &err);
+            if (!f)  return err;
             f->bits &= ~ w->bits;
         }
         break;
@@ -2295,7 +2300,10 @@ mutbitset_set_or_clr(NyMutBitSetObject *v, NyBit bitno, int set_or_clr)
             return set_or_clr;
         fp->bits |= f.bits;
     } else {
-        fp = mutbitset_findpos_mut(v, f.pos);
+        int err;
+        fp = mutbitset_findpos_mut(v, f.pos, &err);
+        if (err)
+            return -1;
         if (!(fp && (fp->bits & f.bits))) {
             return set_or_clr;
         }
@@ -2431,7 +2439,10 @@ mutbitset_append_or_remove(NyMutBitSetObject *v, PyObject *w, int ap, char *errm
         }
         fp->bits |= f.bits;
     } else {
-        fp = mutbitset_findpos_mut(v, f.pos);
+        int err;
+        fp = mutbitset_findpos_mut(v, f.pos, &err);
+        if (err)
+            return 0;
         if (!(fp && (fp->bits & f.bits))) {
             PyErr_Format(PyExc_ValueError,
                          errmsg, bitno);
-- 
2.43.0


From d3c823e9b9f50dc293d8bb6c63729a53572a6171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:13 +0000
Subject: [PATCH 07/86] fix: a node set being cleared is not seen with released
 elements

A destructor run by the release of an element could use the set while it
still listed elements that had been released.
---
 src/sets/nodeset.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index de1c2a3..c6f2203 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -361,9 +361,9 @@ nodeset_bitset(NyNodeSetObject *v) {
 
 
 static int
-nodeset_dealloc_iter(PyObject *obj, void *v)
+nodeset_dealloc_bit(NyBit bitno, void *arg)
 {
-    Py_DECREF(obj);
+    Py_DECREF(nodeset_bitno_to_obj(bitno));
     return 0;
 }
 
@@ -372,10 +372,10 @@ mutnodeset_gc_clear(NyNodeSetObject *v)
 {
     if (v->u.bitset) {
         PyObject *x = v->u.bitset;
+        v->u.bitset = 0;
         if (v->flags & NS_HOLDOBJECTS) {
-            NyNodeSet_iterate(v, nodeset_dealloc_iter, v);
+            NyAnyBitSet_iterate(x, nodeset_dealloc_bit, NULL);
         }
-        v->u.bitset = 0;
         Py_DECREF(x);
     }
     if (v->_hiding_tag_) {
@@ -623,12 +623,18 @@ int
 NyNodeSet_clear(NyNodeSetObject *v)
 {
     if (NyMutNodeSet_Check(v) && v->u.bitset) {
-        if (v->flags & NS_HOLDOBJECTS) {
-            NyNodeSet_iterate(v, nodeset_dealloc_iter, v);
-        }
-        if (NyMutBitSet_clear((NyMutBitSetObject *)v->u.bitset) == -1)
+        /* Detach the elements before releasing them: releasing one may run
+           code that uses this set. */
+        PyObject *bitset = v->u.bitset;
+        PyObject *nbitset = (PyObject *)NyMutBitSet_New();
+        if (!nbitset)
             return -1;
+        v->u.bitset = nbitset;
         Py_SET_SIZE(v, 0);
+        if (v->flags & NS_HOLDOBJECTS) {
+            NyAnyBitSet_iterate(bitset, nodeset_dealloc_bit, NULL);
+        }
+        Py_DECREF(bitset);
     } else {
         PyErr_Format(PyExc_ValueError,
                      "mutable nodeset required");
-- 
2.43.0


From 9dc6f14a4171787fc940041b309d99c658c55ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:56 +0000
Subject: [PATCH 08/86] fix: iterating a mutable node set passes over removed
 elements

The iterator runs on a snapshot of addresses; an element removed (and
possibly freed) since then was returned as a dangling pointer.
---
 src/sets/nodeset.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index c6f2203..e2c6ba2 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -224,16 +224,20 @@ mutnsiter_getiter(PyObject *it)
 static PyObject *
 mutnsiter_iternext(NyMutNodeSetIterObject *hi)
 {
-    PyObject *bitobj = Py_TYPE(hi->bitset_iter)->tp_iternext(hi->bitset_iter);
     PyObject *ret;
     NyBit bitno;
-    if (!bitobj)
-        return 0;
-    bitno = PyLong_AsSsize_t(bitobj);
-    if (bitno == -1 && PyErr_Occurred())
-        return 0;
-    ret = nodeset_bitno_to_obj(bitno);
-    Py_DECREF(bitobj);
+    /* The bitset iterator works on a snapshot. Elements that have been removed
+       from the nodeset since then may be dead and are passed over. */
+    do {
+        PyObject *bitobj = Py_TYPE(hi->bitset_iter)->tp_iternext(hi->bitset_iter);
+        if (!bitobj)
+            return 0;
+        bitno = PyLong_AsSsize_t(bitobj);
+        Py_DECREF(bitobj);
+        if (bitno == -1 && PyErr_Occurred())
+            return 0;
+        ret = nodeset_bitno_to_obj(bitno);
+    } while (!NyNodeSet_hasobj(hi->nodeset, ret));
     if (hi->nodeset->flags & NS_HOLDOBJECTS) {
         Py_INCREF(ret);
     } else {
-- 
2.43.0


From 5e0825a348c6eb37d8efdcfd5a023c1014b32909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 09/86] fix: in-place node set operations survive changes made
 by destructors

Removing an element may run code that changes the set being iterated,
which skipped elements or read freed memory.
---
 src/sets/nodeset.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index e2c6ba2..90b6d17 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -138,6 +138,8 @@ NyNodeSetObject *
 NyImmNodeSet_SubtypeOfNodeSetDecRef(PyTypeObject *type, NyNodeSetObject *v);
 NyNodeSetObject *
 NyImmNodeSet_New(NyBit size, PyObject *hiding_tag);
+NyNodeSetObject *
+NyImmNodeSet_NewCopy(NyNodeSetObject *v);
 
 static NyNodeSetObject *
 immnodeset_op(NyNodeSetObject *v, NyNodeSetObject *w, int op);
@@ -997,6 +999,8 @@ nodeset_iand(NyNodeSetObject *v, PyObject *w)
 
 {
     IANDTravArg ta;
+    NyNodeSetObject *cp;
+    int r;
     if (!(NyMutNodeSet_Check(v))) {
         return nodeset_and((PyObject *)v, w);
     }
@@ -1012,7 +1016,13 @@ nodeset_iand(NyNodeSetObject *v, PyObject *w)
             goto err;
         Py_DECREF(p);
     }
-    if (NyNodeSet_iterate(v, (NyIterableVisitor) nodeset_iand_visit, &ta) == -1)
+    /* Iterate a copy: removing an element may run code that changes v. */
+    cp = NyImmNodeSet_NewCopy(v);
+    if (!cp)
+        goto err;
+    r = NyNodeSet_iterate(cp, (NyIterableVisitor) nodeset_iand_visit, &ta);
+    Py_DECREF(cp);
+    if (r == -1)
         goto err;
     Py_INCREF(v);
 ret:
@@ -1026,13 +1036,30 @@ err:
 
 }
 
+static PyObject *
+nodeset_iop_removing(NyNodeSetObject *v, PyObject *w,
+                     int (*visit)(NyNodeSetObject *, PyObject *))
+{
+    PyObject *ret;
+    if (!NyMutNodeSet_Check(w))
+        return nodeset_iop_chk_iterable(v, w, visit);
+    /* Iterate a copy: removing an element may run code that changes w,
+       and w may be v. */
+    w = (PyObject *)NyImmNodeSet_NewCopy((NyNodeSetObject *)w);
+    if (!w)
+        return 0;
+    ret = nodeset_iop_chk_iterable(v, w, visit);
+    Py_DECREF(w);
+    return ret;
+}
+
 static PyObject *
 nodeset_isub(NyNodeSetObject *v, PyObject *w)
 {
     if (!(NyMutNodeSet_Check(v)))
         return nodeset_sub((PyObject *)v, w);
     else
-        return nodeset_iop_chk_iterable(v, w, NyNodeSet_clrobj);
+        return nodeset_iop_removing(v, w, NyNodeSet_clrobj);
 }
 
 static PyObject *
@@ -1041,7 +1068,7 @@ nodeset_ixor(NyNodeSetObject *v, PyObject *w)
     if (!(NyMutNodeSet_Check(v)))
         return nodeset_xor((PyObject *)v, w);
     else
-        return nodeset_iop_chk_iterable(v, w, NyNodeSet_invobj);
+        return nodeset_iop_removing(v, w, NyNodeSet_invobj);
 }
 
 static PyObject *
-- 
2.43.0


From ed6e1f54ba7d50a69cd14877bff6bcfa72f63887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 10/86] fix: membership in a complemented mutable bitset

---
 src/sets/bitset.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 5f78ecb..827d9bb 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1343,9 +1343,7 @@ NyMutBitSet_hasbit(NyMutBitSetObject *v, NyBit bit)
     NyBitField f, *fp;
     bitno_to_field(bit, &f);
     fp = mutbitset_findpos(v, f.pos);
-    if (!fp)
-        return 0;
-    return (fp->bits & f.bits) != 0;
+    return (fp && (fp->bits & f.bits)) != (v->cpl != 0);
 }
 static int
 mutbitset_contains(NyMutBitSetObject *v, PyObject *w)
-- 
2.43.0


From 127401f33c2785b4b89a7e190a61e1c1a7643ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 11/86] fix: report errors in bitset slice bounds

---
 src/sets/bitset.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 827d9bb..40d8049 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2606,8 +2606,9 @@ NySlice_GetIndices(PySliceObject *r, NyBit *start, NyBit *stop)
     if (r->step == Py_None) {
             *step = 1;
     } else {
-        if (!PyLong_Check(r->step)) return -1;
-        *step = PyLong_AsSsize_t(r->step);
+        *step = bitno_from_object(r->step);
+        if (*step == -1 && PyErr_Occurred())
+            return -1;
         if (*step != 1) {
             PyErr_SetString(PyExc_IndexError, "bitset slicing step must be 1");
             return -1;
@@ -2616,14 +2617,16 @@ NySlice_GetIndices(PySliceObject *r, NyBit *start, NyBit *stop)
     if (r->start == Py_None) {
         *start = 0;
     } else {
-        if (!PyLong_Check(r->start)) return -1;
-        *start = PyLong_AsSsize_t(r->start);
+        *start = bitno_from_object(r->start);
+        if (*start == -1 && PyErr_Occurred())
+            return -1;
     }
     if (r->stop == Py_None) {
         *stop = PY_SSIZE_T_MAX;
     } else {
-        if (!PyLong_Check(r->stop)) return -1;
-        *stop = PyLong_AsSsize_t(r->stop);
+        *stop = bitno_from_object(r->stop);
+        if (*stop == -1 && PyErr_Occurred())
+            return -1;
     }
     return 0;
 }
-- 
2.43.0


From 3a17a8c7644ff72970233f1c84c808665046543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 12/86] fix: check for memory exhaustion when slicing a bitset

---
 src/sets/bitset.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 40d8049..710e2b3 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2991,6 +2991,8 @@ sf_slice(NySetField *ss, NySetField *se, NyBit ilow, NyBit ihigh)
                 break;
         }
         bs = NyImmBitSet_New(nfields);
+        if (!bs)
+            return NULL;
         g = bs->ob_field;
         i = 0;
         for (s = ss; s < se; s++) {
@@ -3031,6 +3033,8 @@ sf_slice(NySetField *ss, NySetField *se, NyBit ilow, NyBit ihigh)
                 break;
         }
         bs = NyImmBitSet_New(nfields);
+        if (!bs)
+            return NULL;
         g = bs->ob_field + nfields - 1;
         i = 0;
         for (s = se; --s >= ss;) {
-- 
2.43.0


From 76beab4db8449c3368dd7a0c1bf9eabf0ab919ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 13/86] fix: popping from a bitset loses no bit when memory is
 exhausted

---
 src/sets/bitset.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 710e2b3..7beb8f7 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2567,12 +2567,17 @@ mutbitset_pop(NyMutBitSetObject *v, PyObject *args)
 {
     NyBit i = -1;
     NyBit bit;
+    PyObject *r;
     if (!PyArg_ParseTuple(args, "|n:pop", &i))
         return NULL;
     bit = NyMutBitSet_pop(v, i);
     if (bit == -1 && PyErr_Occurred())
         return 0;
-    return PyLong_FromSsize_t(bit); /// xxx from ...
+    r = PyLong_FromSsize_t(bit); /// xxx from ...
+    if (!r)
+        /* Put it back; this fits in the space the bit just left. */
+        NyMutBitSet_setbit(v, bit);
+    return r;
 }
 
 static PyObject *
-- 
2.43.0


From b2e79bb4143f61c862839a3a728653703109ac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 14/86] fix: empty instances of ImmBitSet subclasses are empty

---
 src/sets/bitset.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 7beb8f7..c7566b5 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2922,7 +2922,7 @@ immbitset_lshift(NyImmBitSetObject *v, NyBit w)
     NyBit n;
     NyBit lopos, hipos;
     NyBit i;
-    if (v == NyImmBitSet_Empty) {
+    if (!Py_SIZE(v)) {
         Py_INCREF(NyImmBitSet_Empty);
         return NyImmBitSet_Empty;
     }
@@ -3100,7 +3100,7 @@ immbitset_subscript(NyImmBitSetObject *v, PyObject *w)
     i = PyLong_AsSsize_t(w);
     if (i == -1 && PyErr_Occurred())
         return 0;
-    if (v == NyImmBitSet_Empty) {
+    if (!Py_SIZE(v)) {
         PyErr_SetString(PyExc_IndexError, "empty immbitset - index out of range");
         return 0;
     }
@@ -3217,7 +3217,7 @@ immbitset(PyTypeObject *unused, PyObject *args, PyObject *kwds)
 static int
 immbitset_nonzero(NyImmBitSetObject *v)
 {
-    return v != NyImmBitSet_Empty;
+    return Py_SIZE(v) != 0;
 }
 
 static int
-- 
2.43.0


From ea7a9e09a9f5cca983b7bb5edebb4d0c523e9558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 15/86] fix: clearing a complemented mutable bitset removes all
 elements

---
 src/sets/bitset.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index c7566b5..dc83190 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1714,7 +1714,10 @@ mutbitset_reset(NyMutBitSetObject *v)
 
 int NyMutBitSet_clear(NyMutBitSetObject *v)
 {
-    return mutbitset_reset(v);
+    if (mutbitset_reset(v) == -1)
+        return -1;
+    v->cpl = 0;
+    return 0;
 }
 
 
-- 
2.43.0


From c10a59d3ffa47ca022a900d8c1a4b6b4ba60a6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 16/86] fix: a mutable bitset does not take over an ImmBitSet
 subclass instance as its storage

---
 src/sets/bitset.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index dc83190..a268d8c 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2177,7 +2177,9 @@ mutbitset_subtype_new_from_arg(PyTypeObject *type, PyObject *arg)
     NyImmBitSetObject *set = 0;
     NyUnionObject *root = 0;
     if (arg) {
-        if (NyImmBitSet_Check(arg)) {
+        if (Py_TYPE(arg) == &NyImmBitSet_Type) {
+            /* Instances of subclasses can't be shared: they may be laid out
+               differently, and are not to be changed or reallocated. */
             set = (NyImmBitSetObject *)arg;
             Py_INCREF(set);
         } else if (NyMutBitSet_Check(arg)) {
-- 
2.43.0


From 2ef2d5c843409bea787c26af43d81400f3ee6caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 17/86] fix: stale length of immutable bitset made from a
 mutable one

---
 src/sets/bitset.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index a268d8c..91efed8 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1283,6 +1283,8 @@ mutbitset_as_noncomplemented_immbitset_subtype(NyMutBitSetObject *v, PyTypeObjec
          Py_SIZE(slo->set) == size)) {
         bs = slo->set;
         Py_INCREF(bs);
+        /* It may have been changed since its length was last calculated. */
+        bs->ob_length = -1;
         v->cur_field = 0;
     } else {
         bs = NyImmBitSet_SubtypeNew(type, size);
-- 
2.43.0


From 2c838ce03d03aa487a930259e00db3751697bcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 18/86] fix: copying a large complemented mutable bitset

---
 src/sets/bitset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 91efed8..b64598d 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2178,6 +2178,7 @@ mutbitset_subtype_new_from_arg(PyTypeObject *type, PyObject *arg)
     NyMutBitSetObject *ms;
     NyImmBitSetObject *set = 0;
     NyUnionObject *root = 0;
+    int cpl = 0;
     if (arg) {
         if (Py_TYPE(arg) == &NyImmBitSet_Type) {
             /* Instances of subclasses can't be shared: they may be laid out
@@ -2189,6 +2190,7 @@ mutbitset_subtype_new_from_arg(PyTypeObject *type, PyObject *arg)
             if (oms->root != &oms->fst_root) {
                 root = oms->root;
                 Py_INCREF(root);
+                cpl = oms->cpl;
                 oms->cur_field = 0;
             }
         }
@@ -2197,6 +2199,7 @@ mutbitset_subtype_new_from_arg(PyTypeObject *type, PyObject *arg)
     Py_XDECREF(set);
     Py_XDECREF(root);
     if (!ms) return 0;
+    ms->cpl = cpl;
     if (!(set || root)) {
         if (arg) {
             void *r = mutbitset_ior(ms, arg);
-- 
2.43.0


From 73228dbecc1f909c8dae7345efb684d0af2363be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 19/86] fix: compare mutable bitsets beyond a part emptied by
 pop

---
 src/sets/bitset.c | 47 ++++++++++++++++++-----------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index b64598d..6a45c5c 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -3230,6 +3230,17 @@ immbitset_nonzero(NyImmBitSetObject *v)
     return Py_SIZE(v) != 0;
 }
 
+static NyBitField *
+sf_next(NySetField **s, NySetField *se, NyBitField *f, NyBitField **fe)
+{
+    /* Go on to the next set field that has any bit fields. */
+    while (f == *fe && *s < se) {
+        f = sf_getrange(*s, fe);
+        (*s)++;
+    }
+    return f;
+}
+
 static int
 sf_tst_sf(NySetField *as, NySetField *ase, int op, NySetField *bs, NySetField *bse)
 {
@@ -3239,17 +3250,10 @@ sf_tst_sf(NySetField *as, NySetField *ase, int op, NySetField *bs, NySetField *b
     if (op == NyBits_TRUE)
         return 1;
 
-    if (as < ase) {
-        af = sf_getrange(as, &afe);
-        as++;
-    } else
-        af = afe = 0;
-
-    if (bs < bse) {
-        bf = sf_getrange(bs, &bfe);
-        bs++;
-    } else
-        bf = bfe = 0;
+    af = afe = 0;
+    af = sf_next(&as, ase, af, &afe);
+    bf = bfe = 0;
+    bf = sf_next(&bs, bse, bf, &bfe);
 
     for (;;) {
         if (af < afe) {
@@ -3264,32 +3268,17 @@ sf_tst_sf(NySetField *as, NySetField *ase, int op, NySetField *bs, NySetField *b
                         a = 0;
                     }
                     b = bf++->bits;
-                    if (bf == bfe) {
-                        if (bs < bse) {
-                            bf = sf_getrange(bs, &bfe);
-                            bs++;
-                        }
-                    }
+                    bf = sf_next(&bs, bse, bf, &bfe);
                 }
             } else {
                 a = af++->bits;
                 b = 0;
             }
-            if (af == afe) {
-                if (as < ase) {
-                    af = sf_getrange(as, &afe);
-                    as++;
-                }
-            }
+            af = sf_next(&as, ase, af, &afe);
         } else if (bf < bfe) {
             a = 0;
             b = bf++->bits;
-            if (bf == bfe) {
-                if (bs < bse) {
-                    bf = sf_getrange(bs, &bfe);
-                    bs++;
-                }
-            }
+            bf = sf_next(&bs, bse, bf, &bfe);
         } else
             return 0;
 
-- 
2.43.0


From a0947515bbd41bbc11d10e69eafb236f89171aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 20/86] fix: a failing in-place operation does not invert a
 complemented bitset

---
 src/sets/bitset.c | 70 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 60 insertions(+), 10 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 6a45c5c..7e5c0dc 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1522,9 +1522,18 @@ cpl_conv_right(int op, int *cplp)
 }
 
 static int
-mutbitset_iop_convert(NyMutBitSetObject *v, int op)
+mutbitset_own_all(NyMutBitSetObject *v)
 {
-    return cpl_conv_left(&v->cpl, op);
+    /* Make all storage of v its own, so that changing the bits can't fail. */
+    NySetField *s, *end_s;
+    NyBitField *f, *end_f;
+    if (mutbitset_getrange_mut(v, &s, &end_s) < 0)
+        return -1;
+    for (; s < end_s; s++) {
+        if (sf_getrange_mut(s, &f, &end_f) < 0)
+            return -1;
+    }
+    return 0;
 }
 
 static int
@@ -1532,11 +1541,20 @@ mutbitset_iop_fields(NyMutBitSetObject *v, int op, NyBitField *w, NyBit n)
 {
     NySetField *s, *end_s;
     NyBitField *f, *end_w, *end_f;
+    int cpl = v->cpl;
+    NyBit i;
     end_s = 0; /* avoid warning */
-    op = mutbitset_iop_convert(v, op);
+    op = cpl_conv_left(&cpl, op);
     switch(op) {
-    case NyBits_OR:
     case NyBits_XOR:
+        /* If this fails, it shall be before any change: our caller may have
+           to complement the result. */
+        for (i = 0; i < n; i++) {
+            if (w[i].bits && !mutbitset_findpos_ins(v, w[i].pos))
+                return -1;
+        }
+        /* fall through */
+    case NyBits_OR:
     case NyBits_SUB:
         while (n > 0) {
             if (mutbitset_iop_field(v, op, w) == -1)
@@ -1547,6 +1565,9 @@ mutbitset_iop_fields(NyMutBitSetObject *v, int op, NyBitField *w, NyBit n)
         break;
     case NyBits_AND:
         end_w = w + n;
+        if (mutbitset_own_all(v) < 0)
+            return -1;
+        v->cpl = cpl;
         if (mutbitset_getrange_mut(v, &s, &end_s) < 0)
             return -1;
         for (; s < end_s; s++) {
@@ -1565,7 +1586,6 @@ mutbitset_iop_fields(NyMutBitSetObject *v, int op, NyBitField *w, NyBit n)
         }
         break;
     case NyBits_SUBR: {
-            NyBit i;
             for (i = 0; i < n; i++) {
                 if (w[i].bits) {
                     if (!mutbitset_findpos_ins(v, w[i].pos))
@@ -1573,6 +1593,9 @@ mutbitset_iop_fields(NyMutBitSetObject *v, int op, NyBitField *w, NyBit n)
                 }
             }
             end_w = w + n;
+            if (mutbitset_own_all(v) < 0)
+                return -1;
+            v->cpl = cpl;
             if (mutbitset_getrange_mut(v, &s, &end_s) < 0)
                 return -1;
             for (; s < end_s; s++) {
@@ -1612,11 +1635,19 @@ mutbitset_iop_bits(NyMutBitSetObject *v, int op, NyBit pos, NyBits *bits, NyBit
 {
     NySetField *s, *end_s;
     NyBitField *f, *end_f;
+    int cpl = v->cpl;
+    NyBit i;
     end_s = 0; /* avoid warning */
-    op = mutbitset_iop_convert(v, op);
+    op = cpl_conv_left(&cpl, op);
     switch(op) {
-    case NyBits_OR:
     case NyBits_XOR:
+        /* As in mutbitset_iop_fields() */
+        for (i = 0; i < n; i++) {
+            if (bits[i] && !mutbitset_findpos_ins(v, pos + i))
+                return -1;
+        }
+        /* fall through */
+    case NyBits_OR:
     case NyBits_SUB:
         while (n > 0) {
             NyBitField f;
@@ -1629,6 +1660,9 @@ mutbitset_iop_bits(NyMutBitSetObject *v, int op, NyBit pos, NyBits *bits, NyBit
         }
         break;
     case NyBits_AND:
+        if (mutbitset_own_all(v) < 0)
+            return -1;
+        v->cpl = cpl;
         if (mutbitset_getrange_mut(v, &s, &end_s) < 0)
             return -1;
         for (; s < end_s; s++) {
@@ -1651,13 +1685,15 @@ mutbitset_iop_bits(NyMutBitSetObject *v, int op, NyBit pos, NyBits *bits, NyBit
         }
         break;
     case NyBits_SUBR: {
-            int i;
             for (i = 0; i < n; i++) {
                 if (bits[i]) {
                     if (!mutbitset_findpos_ins(v, pos + i))
                         return -1;
                 }
             }
+            if (mutbitset_own_all(v) < 0)
+                return -1;
+            v->cpl = cpl;
             if (mutbitset_getrange_mut(v, &s, &end_s) < 0)
                 return -1;
             for (; s < end_s; s++) {
@@ -1746,11 +1782,12 @@ static int
 mutbitset_iop_mutset(NyMutBitSetObject *v, int op, NyMutBitSetObject *w)
 {
     int cpl = w->cpl;
+    int vcpl = v->cpl;
     NySetField *s, *end_s;
     NyBitField *f, *end_f, *wf;
     end_s = 0; /* avoid warning */
     op = cpl_conv_right(op, &cpl);
-    op = mutbitset_iop_convert(v, op);
+    op = cpl_conv_left(&vcpl, op);
     if (v == w) {
         /* Special caseing this because:
            - may be problems updating the same we iterate on
@@ -1772,10 +1809,17 @@ mutbitset_iop_mutset(NyMutBitSetObject *v, int op, NyMutBitSetObject *w)
                             "Invalid mutbitset_iop_fields() operation");
             return -1;
         }
+        v->cpl = vcpl;
     } else
         switch(op) {
-    case NyBits_OR:
     case NyBits_XOR:
+        /* As in mutbitset_iop_fields() */
+        for (s = mutbitset_getrange(w, &end_s); s < end_s; s++)
+            for (f = sf_getrange(s, &end_f); f < end_f; f++)
+                if (f->bits && !mutbitset_findpos_ins(v, f->pos))
+                    return -1;
+        /* fall through */
+    case NyBits_OR:
     case NyBits_SUB:
         for (s = mutbitset_getrange(w, &end_s); s < end_s; s++)
             for (f = sf_getrange(s, &end_f); f < end_f; f++)
@@ -1783,6 +1827,9 @@ mutbitset_iop_mutset(NyMutBitSetObject *v, int op, NyMutBitSetObject *w)
                     return -1;
         break;
     case NyBits_AND:
+        if (mutbitset_own_all(v) < 0)
+            return -1;
+        v->cpl = vcpl;
         if (mutbitset_getrange_mut(v, &s, &end_s) < 0)
             return -1;
         for (; s < end_s; s++) {
@@ -1802,6 +1849,9 @@ mutbitset_iop_mutset(NyMutBitSetObject *v, int op, NyMutBitSetObject *w)
             for (f = sf_getrange(s, &end_f); f < end_f; f++)
                 if (!mutbitset_findpos_ins(v, f->pos))
                     return -1;
+        if (mutbitset_own_all(v) < 0)
+            return -1;
+        v->cpl = vcpl;
         if (mutbitset_getrange_mut(v, &s, &end_s) < 0)
             return -1;
         for (; s < end_s; s++) {
-- 
2.43.0


From 9ff90c5830717a07185951f295f44c8ac76e3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 21/86] fix: inserting into a bitset with a single free place
 at the far end

---
 src/sets/bitset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 7e5c0dc..ceb341e 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1044,7 +1044,7 @@ sf_ins1(NySetField *sf, NyBitField *f, NyBit pos)
         sf->hi += move;
         if (hi_size <= lo_size && sf->hi < hi_tot)      goto MOVE_HI;
         if (lo_size <= hi_size && sf->lo > lo_tot)      goto MOVE_LO;
-        assert(0);
+        /* A single free place, at the other end. */
     }
 
     if (sf_realloc(sf, sf->hi + 1 - lo_tot) == -1)
-- 
2.43.0


From 5421e8a09d687aa49259bbb3738de0a268e86e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 22/86] fix: a node graph keeps its edges when memory is
 exhausted

---
 src/heapy/nodegraph.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index a7ea193..f8ce6dc 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -168,12 +168,14 @@ NyNodeGraph_AddEdge(NyNodeGraphObject *ng, PyObject *src, PyObject *tgt)
 
     if (ng->used_size >= ng->allo_size) {
         Py_ssize_t allo = roundupsize(ng->used_size + 1);
-        PyMem_RESIZE(ng->edges, NyNodeGraphEdge, allo);
-        if (!ng->edges) {
-            ng->used_size = ng->allo_size = 0;
+        NyNodeGraphEdge *edges = ng->edges;
+        PyMem_RESIZE(edges, NyNodeGraphEdge, allo);
+        if (!edges) {
+            /* The old edges are still there */
             PyErr_NoMemory();
             return -1;
         }
+        ng->edges = edges;
         ng->allo_size = allo;
     }
     Py_INCREF(src);
@@ -235,7 +237,11 @@ ng_remove_dups(NyNodeGraphObject *ng)
 static void
 ng_trim(NyNodeGraphObject *ng)
 {
-    PyMem_RESIZE(ng->edges, NyNodeGraphEdge, ng->used_size);
+    NyNodeGraphEdge *edges = ng->edges;
+    PyMem_RESIZE(edges, NyNodeGraphEdge, ng->used_size);
+    if (!edges)
+        return; /* Keep the untrimmed edges */
+    ng->edges = edges;
     ng->allo_size = ng->used_size;
 }
 
-- 
2.43.0


From f77b97e22bb878e8e59af99f9f66659af6e2d174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 23/86] fix: check for memory exhaustion when iterating a node
 graph

---
 src/heapy/nodegraph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index f8ce6dc..0479830 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -585,7 +585,7 @@ PyObject *
 ng_iter(NyNodeGraphObject *v)
 {
     NyNodeGraphIterObject *iter = PyObject_GC_New(NyNodeGraphIterObject, &NyNodeGraphIter_Type);
-    if (!v)
+    if (!iter)
         return 0;
     iter->nodegraph = v;
     Py_INCREF(v);
-- 
2.43.0


From 2c6a9247f3cf8ed0ae3c4ea6ce32935370a1eb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 24/86] fix: reference counts when assigning the targets of a
 node graph source

---
 src/heapy/nodegraph.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index 0479830..8e07fc2 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -897,6 +897,7 @@ static int
 ng_ass_sub(NyNodeGraphObject *ng, PyObject *v, PyObject *w)
 {
     NyNodeGraphEdge *lo, *hi;
+    PyObject *old;
     Py_ssize_t i, regsize, tupsize;
     if (!w) {
         PyErr_SetString(PyExc_NotImplementedError,
@@ -905,7 +906,7 @@ ng_ass_sub(NyNodeGraphObject *ng, PyObject *v, PyObject *w)
     }
     ng_maybesortetc(ng);
     if (NyNodeGraph_Region(ng, v, &lo, &hi) == -1) {
-        return 0;
+        return -1;
     }
     regsize = hi - lo;
     if (ng->is_mapping) {
@@ -915,7 +916,7 @@ ng_ass_sub(NyNodeGraphObject *ng, PyObject *v, PyObject *w)
 "consider using .add_edge() etc. instead.");
             return -1;
         } else {
-            PyObject *old = lo->tgt;
+            old = lo->tgt;
             lo->tgt = w;
             Py_INCREF(w);
             Py_DECREF(old);
@@ -932,12 +933,17 @@ ng_ass_sub(NyNodeGraphObject *ng, PyObject *v, PyObject *w)
 "consider using .add_edge() etc. instead.");
             return -1;
         }
+        /* The old targets are released only when all are replaced,
+           since that may run code that changes the nodegraph. */
+        old = PyTuple_New(regsize);
+        if (!old)
+            return -1;
         for (i = 0; i < regsize; i++) {
-            PyObject *old = lo[i].tgt;
+            PyTuple_SET_ITEM(old, i, lo[i].tgt);
             lo[i].tgt = PyTuple_GET_ITEM(w, i);
-            Py_INCREF(lo->tgt);
-            Py_XDECREF(old);
+            Py_INCREF(lo[i].tgt);
         }
+        Py_DECREF(old);
     }
     return 0;
 }
-- 
2.43.0


From a4fe309e6ae2ee9a3ce64dc3f32a1ad11dbb75b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 25/86] fix: report an error from the truth value of is_mapping

---
 src/heapy/nodegraph.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index 8e07fc2..59f312d 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -972,8 +972,13 @@ ng_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
     ng = NyNodeGraph_SubtypeNew(type);
     if (!ng)
         return 0;
-    if (is_mapping && PyObject_IsTrue(is_mapping)) {
-        ng->is_mapping = 1;
+    if (is_mapping) {
+        int truth = PyObject_IsTrue(is_mapping);
+        if (truth == -1) {
+            Py_DECREF(ng);
+            return 0;
+        }
+        ng->is_mapping = truth;
     }
     if (iterable && iterable != Py_None && NyNodeGraph_Update(ng, iterable) == -1) {
         Py_DECREF(ng);
-- 
2.43.0


From a9bcd01ebe0817bff294680ecd281500352c7285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 26/86] fix: reachability does not follow references from
 hidden objects

---
 src/heapy/hv.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 54eb8b5..ae423f6 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -1059,8 +1059,11 @@ static int
 hv_ra_rec(PyObject *obj, RATravArg *ta)
 {
     int r;
-    if (NyNodeSet_hasobj(ta->avoid, obj))
+    if (hv_is_obj_hidden(ta->hv, obj) && Py_TYPE(obj) != &NyRootState_Type)
         return 0;
+    r = NyNodeSet_hasobj(ta->avoid, obj);
+    if (r)
+        return r < 0 ? r : 0;
     r = NyNodeSet_setobj(ta->visited, obj);
     if (r)
         return r < 0 ? r : 0;
@@ -1114,12 +1117,15 @@ static int
 hv_ra_rec_e(PyObject *obj, RATravArg *ta)
 {
     int r;
+    if (hv_is_obj_hidden(ta->hv, obj) && Py_TYPE(obj) != &NyRootState_Type)
+        return 0;
     r = NyNodeSet_setobj(ta->visited, obj);
     if (r)
         return r < 0 ? r : 0;
     else {
-        if (NyNodeSet_hasobj(ta->avoid, obj))
-            return 0;
+        r = NyNodeSet_hasobj(ta->avoid, obj);
+        if (r)
+            return r < 0 ? r : 0;
         return PyList_Append(ta->to_visit, obj);
     }
 }
-- 
2.43.0


From 88f17e764dfddb263ff0388b88819ab84813483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:24 +0000
Subject: [PATCH 27/86] fix: iterating a heap view gives each visible object
 once

---
 src/heapy/hv.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index ae423f6..3042262 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -833,11 +833,13 @@ typedef struct {
 static int
 iter_rec(PyObject *obj, IterTravArg *ta) {
     int r;
-    if (Py_REFCNT(obj) > 1) {
-        r = NyNodeSet_setobj(ta->hs, obj);
-        if (r)
-            return r < 0 ? r : 0;
-    }
+    if (hv_is_obj_hidden(ta->hv, obj) && Py_TYPE(obj) != &NyRootState_Type)
+        return 0;
+    /* An object may be visited more than once even if it has a single
+       reference, since a frame and its generator both visit the same one. */
+    r = NyNodeSet_setobj(ta->hs, obj);
+    if (r)
+        return r < 0 ? r : 0;
     r = ta->visit(obj, ta->arg);
     if (!r) {
         r = PyList_Append(ta->to_visit, obj);
@@ -859,6 +861,8 @@ NyHeapView_iterate(NyHeapViewObject *hv, int (*visit)(PyObject *, void *),
     if (!(ta.hs && ta.to_visit))
         goto err;
     r = iter_rec(ta.hv->root, &ta);
+    if (r)
+        goto out;
     while (PyList_Size(ta.to_visit)) {
         PyObject *obj = hv_PyList_Pop(ta.to_visit);
         if (!obj)
-- 
2.43.0


From 6a529b39927817366c00374b288689d9081f5b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:38 +0000
Subject: [PATCH 28/86] fix: referrers do not pass through or include hidden
 objects

---
 src/heapy/hv.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 3042262..d7c8b90 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -1554,6 +1554,11 @@ static int
 rg_rec(PyObject *obj, RetaTravArg *ta) {
     if (obj == (PyObject *)ta->rg || obj == ta->hv->root)
         return 0;
+    if (hv_is_obj_hidden(ta->hv, obj)) {
+        int is_target = NyNodeSet_hasobj(ta->targetset, obj);
+        if (is_target <= 0)
+            return is_target;
+    }
     return PyList_Append(ta->to_visit, obj);
 }
 
@@ -1678,7 +1683,8 @@ err_inner_inner:
             if (PyList_Append(ta.to_visit, ta.sentinel) == -1)
                 goto err_inner;
 
-            if (!no_recurse)
+            if (!no_recurse && (obj == ta.hv->root ||
+                                !hv_is_obj_hidden(ta.hv, obj)))
                 if (xt_traverse(xt, obj, (visitproc)rg_rec, &ta) == -1)
                     goto err_inner;
         }
-- 
2.43.0


From d31a7796106f811e2bf62389d17a2c587fcd0d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:42 +0000
Subject: [PATCH 29/86] fix: a collection during use or update of the referrer
 graph is not lost

---
 guppy/heapy/View.py | 58 +++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/guppy/heapy/View.py b/guppy/heapy/View.py
index 02823b9..35ecce7 100644
--- a/guppy/heapy/View.py
+++ b/guppy/heapy/View.py
@@ -39,6 +39,16 @@ class Gchook_type(object):
         g.x = g
 
 
+class ReferrersState(object):
+    # A plain object, so that updating it can not be interrupted.
+    __slots__ = 'lock', 'is_stale', 'is_partial'
+
+    def __init__(self):
+        self.lock = 0            # Number of users of the referrer graph
+        self.is_stale = False    # It was to be cleared while in use
+        self.is_partial = False  # It is being updated
+
+
 class ObservationList(list):
     __slots__ = '_hiding_tag_',
 
@@ -63,7 +73,7 @@ class _GLUECLAMP_:
         '_root:types',
     )
 
-    _chgable_ = ('is_rg_update_all', 'referrers_lock', '_is_clear_drg_enabled',
+    _chgable_ = ('is_rg_update_all', '_is_clear_drg_enabled',
                  'root',)
     _setable_ = ('_hiding_tag_', 'target', 'is_hiding_calling_interpreter',)
 
@@ -180,16 +190,20 @@ class _GLUECLAMP_:
         return rg
 
     def _clear_rg(self):
-        if self.referrers_lock:
+        state = self.referrers_state
+        if state.lock:
+            state.is_stale = True
             return
-        rg = self.rg
-        if rg.is_sorted:
-            rg.clear()
-            self.norefer.clear()
-        else:
-            pass
+        self.rg.clear()
+        self.norefer.clear()
+        state.is_stale = state.is_partial = False
+
+    def _check_rg(self):
+        state = self.referrers_state
+        if not state.lock and (state.is_stale or state.is_partial):
+            self._clear_rg()
 
-    def _get_referrers_lock(self): return 0
+    def _get_referrers_state(self): return ReferrersState()
 
     def _get_root(self): return self.heapyc.RootState
     def _get_target(self): return self._parent.Target.Target(self._hiding_tag_)
@@ -199,12 +213,16 @@ class _GLUECLAMP_:
         self.hv.root = root
 
     def call_with_referrers(self, X, f):
-        self.referrers_lock += 1
+        self._check_rg()
+        state = self.referrers_state
+        lock = state.lock
         try:
+            state.lock = lock + 1
             self.update_referrers(X)
             return f(X)
         finally:
-            self.referrers_lock -= 1
+            state.lock = lock
+            self._check_rg()
 
     def clear_retainers(self):
         """G.clear_retainers()
@@ -460,31 +478,40 @@ any of the objects in the set X."""
 
         X = self.nodeset_adapt(X)
 
-        self.referrers_lock += 1
+        self._check_rg()
+        state = self.referrers_state
+        lock = state.lock
         try:
+            state.lock = lock + 1
             if self.is_rg_update_all and self.root is self.heapyc.RootState:
-                if not (self.rg.domain_covers(X) or
+                if state.is_partial or not (
+                        self.rg.domain_covers(X) or
                         self.rg.domain_covers(X - self.norefer)):
+                    state.is_partial = True
                     self.rg.clear()
                     import gc
                     gc.collect()
                     self.hv.update_referrers_completely(self.rg)
                     addnoref = X - self.rg.get_domain()
                     self.norefer |= addnoref
+                    state.is_stale = state.is_partial = False
             else:
                 Y = self.mutnodeset(X)
                 Y -= self.norefer
-                if not self.rg.domain_covers(Y):
+                if state.is_partial or not self.rg.domain_covers(Y):
                     for wt in self.referrers_targets:
                         t = wt()
                         if t is not None:
                             Y |= t.set.nodes
+                    Y |= X
                     Y |= self.rg.get_domain()
+                    state.is_partial = True
                     self.rg.clear()
                     self.hv.update_referrers(self.rg, Y)
                     self.norefer.clear()
                     self.norefer |= (X | Y | self.rg.get_range())
                     self.norefer -= self.rg.get_domain()
+                    state.is_stale = state.is_partial = False
                     Y = self.mutnodeset(X) - self.norefer
                     if not self.rg.domain_covers(Y):
                         print('update_referrers failed')
@@ -498,7 +525,8 @@ any of the objects in the set X."""
             X = self.retset(X)
             return X
         finally:
-            self.referrers_lock -= 1
+            state.lock = lock
+            self._check_rg()
 
     def referrers_gc(self, X):
         """V.referrers_gc(X) -> idset
-- 
2.43.0


From d04ef3a4599ec53593841d9cf924413633bdbe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:40 +0000
Subject: [PATCH 30/86] fix: shortest paths do not pass through hidden objects

---
 src/heapy/hv.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index d7c8b90..6ea6a17 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -1423,6 +1423,9 @@ hv_shpath_outer(PyObject *u, ShPathTravArg *ta)
         (void *) u == ta->edgestoavoid ||
         (void *) u == ta->U)
         return 0;
+    if (hv_is_obj_hidden(ta->hv, u) && u != ta->hv->root &&
+        Py_TYPE(u) != &NyRootState_Type)
+        return 0;
     ta->u = u;
     return hv_std_traverse(ta->hv, u, (visitproc)hv_shpath_inner, ta);
 }
-- 
2.43.0


From ef34ba0b373dec33d00d039290fab9a7594e9595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:43 +0000
Subject: [PATCH 31/86] fix: label of an element of a set has its index, no
 reference is leaked

---
 src/heapy/stdtypes.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index ca20586..4c13bd5 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -150,7 +150,8 @@ tuple_relate(NyHeapRelate *r)
 static int
 set_relate(NyHeapRelate *r)
 {
-    PyObject *it = PyObject_GetIter(r->src);
+    /* Not PyObject_GetIter, a subclass may have its own __iter__ */
+    PyObject *it = PySet_Type.tp_iter(r->src);
     PyObject *obj;
 
     if (it == NULL) {
@@ -159,11 +160,13 @@ set_relate(NyHeapRelate *r)
 
     Py_ssize_t i = 0;
     while ((obj = PyIter_Next(it))) {
+        Py_DECREF(obj);
         if (r->tgt == obj) {
-            r->visit(NYHR_INSET, PyLong_FromSsize_t(i++), r);
+            r->visit(NYHR_INSET, PyLong_FromSsize_t(i), r);
+            Py_DECREF(it);
             return 1;
         }
-        Py_DECREF(obj);
+        i++;
     }
 
     Py_DECREF(it);
-- 
2.43.0


From 27c4374ff33fd1cf2cfae5984ce33c44eaf51c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:18 +0000
Subject: [PATCH 32/86] fix: naming a path through a frame whose cells are not
 there does not crash

---
 src/heapy/stdtypes.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 4c13bd5..c4516fb 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -212,8 +212,9 @@ frame_locals(NyHeapRelate *r, PyObject *map, Py_ssize_t start, Py_ssize_t n, int
     PyFrameObject *v = (void *)r->src;
     Py_ssize_t i;
     for (i = start; i < start + n; i++) {
-        if ((!deref && v->f_localsplus[i] == r->tgt) ||
-            (deref && PyCell_GET(v->f_localsplus[i]) == r->tgt)) {
+        PyObject *val = v->f_localsplus[i];
+        if ((!deref && val == r->tgt) ||
+            (deref && val && PyCell_Check(val) && PyCell_GET(val) == r->tgt)) {
             PyObject *name;
             if (PyTuple_Check(map) && (i - start) < PyTuple_Size(map)) {
                 name = PyTuple_GetItem(map, i - start);
@@ -311,6 +312,10 @@ frame_relate(NyHeapRelate *r)
         if (!(kind & CO_FAST_CELL) && !(kind & CO_FAST_FREE))
             continue;
 
+        /* No cell before the function has started, or if cleared */
+        if (!val || !PyCell_Check(val))
+            continue;
+
         if (PyCell_GET(val) == r->tgt) {
             Py_INCREF(name);
             if (r->visit(NYHR_CELL, name, r))
-- 
2.43.0


From 6f6dce660fe044631d5efe4c0dc347ff88ad85a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:22 +0000
Subject: [PATCH 33/86] fix: a __dict__ that is also a member is one relation,
 not two

---
 src/heapy/hv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 6ea6a17..3148fcf 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -218,7 +218,9 @@ owht_relate(NyHeapRelate *r, PyTypeObject *type)
     PyMemberDef *mp = type->tp_members;
     if (mp) {
         while (mp->name) {
+            /* The __dict__ is reported by xt_default_relate */
             if ((mp->type == T_OBJECT_EX || mp->type == T_OBJECT) &&
+                !(mp->offset && mp->offset == type->tp_dictoffset) &&
                 *((PyObject **)((char *)v+mp->offset)) == r->tgt) {
                 if (r->visit(NYHR_ATTRIBUTE, PyUnicode_FromString(mp->name), r))
                     return 1;
-- 
2.43.0


From 17532377505df0a1b300b84064a8832f54610961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:27 +0000
Subject: [PATCH 34/86] fix: the reference from a function to its builtins has
 a name

---
 src/heapy/stdtypes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index c4516fb..5bdac5d 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -182,6 +182,9 @@ function_relate(NyHeapRelate *r)
     PyFunctionObject *v = (void *)r->src;
     RENAMEATTR(func_code, __code__);
     RENAMEATTR(func_globals, __globals__);
+#if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 10
+    RENAMEATTR(func_builtins, __builtins__);
+#endif
     RENAMEATTR(func_module, __module__);
     RENAMEATTR(func_defaults, __defaults__);
     RENAMEATTR(func_kwdefaults, __kwdefaults__);
-- 
2.43.0


From 9358216f9aa31868cfe487e2fbd9d8b54a3e3b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 35/86] fix: the number of paths is that of the paths given, at
 any depth

---
 guppy/heapy/Path.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/guppy/heapy/Path.py b/guppy/heapy/Path.py
index 3cdf5d4..d9a7866 100644
--- a/guppy/heapy/Path.py
+++ b/guppy/heapy/Path.py
@@ -331,23 +331,24 @@ class ShortestPaths:
             for dst in self.Dst.nodes:
                 NP.add_edge(dst, 1)
             self.NP = NP
-        numedges = self.mod.hv.numedges
+        relations = self.mod.relations
         IG = self.IG
 
-        def np(y):
-            n = NP[y]
-            if n is None:
-                n = 0
-                for z in IG[y]:
-                    sn = NP[z]
-                    if sn is None:
-                        sn = np(z)
-                    n += sn * numedges(y, z)
-                NP[y] = n
-            return n
         num = 0
         for src in Src.nodes:
-            num += np(src)
+            # Not recursive, since there is no limit on the length of a path
+            todo = [src]
+            while todo:
+                y = todo[-1]
+                if NP[y] is None:
+                    unknown = [z for z in IG[y] if NP[z] is None]
+                    if unknown:
+                        todo.extend(unknown)
+                        continue
+                    # As many as PathsIter gives
+                    NP[y] = sum(NP[z] * len(relations(y, z)) for z in IG[y])
+                todo.pop()
+            num += NP[src]
         return num
 
     def _get_numpaths(self):
-- 
2.43.0


From 69ffacebe61b85eb77e45013e2f9caea154b770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:38 +0000
Subject: [PATCH 36/86] fix: attributes of an instance of a subclass of a
 builtin are named in paths

---
 src/heapy/hv.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 3148fcf..863852f 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -248,13 +248,9 @@ xt_error_size(PyObject *obj)
 }
 
 static int
-xt_default_relate(struct ExtraType *xt, NyHeapRelate *r)
+owndict_relate(NyHeapRelate *r)
 {
-    PyTypeObject *type = xt->xt_type;
-    PyObject **dictptr;
-    if (owht_relate(r, type))
-        return 1;
-    dictptr = _PyObject_GetDictPtr(r->src);
+    PyObject **dictptr = _PyObject_GetDictPtr(r->src);
     if (dictptr) {
         if (*dictptr == r->tgt) {
             if (r->visit(NYHR_ATTRIBUTE, PyUnicode_FromString("__dict__"), r))
@@ -267,9 +263,21 @@ xt_default_relate(struct ExtraType *xt, NyHeapRelate *r)
     return 0;
 }
 
+static int
+xt_default_relate(struct ExtraType *xt, NyHeapRelate *r)
+{
+    if (owht_relate(r, xt->xt_type))
+        return 1;
+    return owndict_relate(r);
+}
+
 static int
 xt_hd_relate(struct ExtraType *xt, NyHeapRelate *r)
 {
+    /* A __dict__ that a subclass has added is not known to the hd */
+    if (Py_TYPE(r->src)->tp_dictoffset && !xt->xt_type->tp_dictoffset &&
+        owndict_relate(r))
+        return 1;
     return xt->xt_hd->relate(r);
 }
 
-- 
2.43.0


From 749ac384b8b21c2f12e2745a3d1118d7f1076b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:42 +0000
Subject: [PATCH 37/86] fix: the internal tuple of slots of a type is not its
 __slots__

---
 src/heapy/stdtypes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 5bdac5d..f9c1130 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -714,7 +714,7 @@ type_relate(NyHeapRelate *r)
     et = (PyHeapTypeObject *)type;
 #define v et
     RENAMEATTR(ht_name, __name__);
-    RENAMEATTR(ht_slots, __slots__);
+    INTERATTR(ht_slots);
     RENAMEATTR(ht_qualname, __qualname__);
 
     INTERATTR(ht_module);
-- 
2.43.0


From 3dd472992dd06f14218e2b211f913032b0711b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:21 +0000
Subject: [PATCH 38/86] fix: a module without a name can be shown

---
 guppy/heapy/Classifiers.py | 2 +-
 guppy/heapy/UniSet.py      | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 35081e6..4a88794 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -1097,7 +1097,7 @@ class ByModule(Classifier):
             return ''
         else:
             m = kind.arg
-            name = m.__name__
+            name = getattr(m, '__name__', None)
             s = '%r' % name
             if self.mod._root.sys.modules.get(name) is not m:
                 s += ', at=%s' % hex(id(m))
diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index d3b5874..8db8117 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -2053,7 +2053,11 @@ class Summary_str:
     str_method._idpart_header = 'Type/<Type at address> . method'
 
     def str_module(self, x):
-        return x.__name__
+        name = getattr(x, '__name__', None)
+        if not isinstance(name, str):
+            # The name may have been deleted
+            return '<unnamed module at %s>' % self.str_address(x)
+        return name
     str_module._idpart_header = 'Name'
 
     def str_limrepr(self, x):
-- 
2.43.0


From 2e470a0a7c5e8aef61a9b0aa7220ecfffb4ae540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:11 +0000
Subject: [PATCH 39/86] fix: naming a path does not use the description of a
 base class that died

---
 src/heapy/heapy.h | 2 +-
 src/heapy/hv.c    | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/heapy/heapy.h b/src/heapy/heapy.h
index 7b7b0e5..990e5b3 100644
--- a/src/heapy/heapy.h
+++ b/src/heapy/heapy.h
@@ -23,7 +23,7 @@ typedef struct ExtraType {
     int (*xt_traverse)(struct ExtraType *, PyObject *, visitproc, void *);
     int (*xt_relate)(struct ExtraType *, NyHeapRelate *r);
     struct ExtraType *xt_next;
-    struct ExtraType *xt_base, *xt_he_xt;
+    struct ExtraType *xt_he_xt;
     int (*xt_he_traverse)(struct ExtraType *, PyObject *, visitproc, void *);
     NyHeapViewObject *xt_hv;
     PyObject *xt_weak_type;
diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 863852f..22037a6 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -94,6 +94,7 @@ PyDoc_STRVAR(hv_doc,
 static PyObject *hv_heap(NyHeapViewObject *self, PyObject *args, PyObject *kwds);
 
 static ExtraType *hv_new_extra_type(NyHeapViewObject *hv, PyTypeObject *type);
+static ExtraType *hv_extra_type(NyHeapViewObject *hv, PyTypeObject *type);
 
 int cli_cmp_as_int(PyObject *cmp);
 
@@ -284,9 +285,12 @@ xt_hd_relate(struct ExtraType *xt, NyHeapRelate *r)
 static int
 xt_inherited_relate(struct ExtraType *xt, NyHeapRelate *r)
 {
+    ExtraType *base;
     if (owht_relate(r, xt->xt_type))
         return 1;
-    return xt->xt_base->xt_relate(xt->xt_base, r);
+    /* Not that when xt was made: the base may have been changed and died */
+    base = hv_extra_type((void *)xt->xt_hv, xt->xt_type->tp_base);
+    return base->xt_relate(base, r);
 }
 
 static int
@@ -491,7 +495,6 @@ hv_new_extra_type(NyHeapViewObject *hv, PyTypeObject *type)
         xt = hv_new_xt_for_type(hv, type);
         if (!xt)
             return 0;
-        xt->xt_base = base;
         xt->xt_hd = base->xt_hd;
         if (base->xt_trav_code == XT_HE) {
             xt->xt_he_xt = base->xt_he_xt;
-- 
2.43.0


From 944e8f6e7792ec52c4a5f3d5e99028557f5de84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:25 +0000
Subject: [PATCH 40/86] fix: a node set that the collector has cleared can be
 used

---
 src/sets/immnodeset.c |  6 ++++--
 src/sets/nodeset.c    | 16 ++++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/sets/immnodeset.c b/src/sets/immnodeset.c
index 3842f52..cbfa5e6 100644
--- a/src/sets/immnodeset.c
+++ b/src/sets/immnodeset.c
@@ -206,8 +206,10 @@ immnodeset_gc_clear(NyNodeSetObject *v)
         Py_DECREF(x);
     }
     if (v->flags & NS_HOLDOBJECTS) {
-        NyBit i;
-        for (i = 0; i < Py_SIZE(v); i++) {
+        NyBit i, n = Py_SIZE(v);
+        /* May be used after this, by something that is cleared later. */
+        Py_SET_SIZE(v, 0);
+        for (i = 0; i < n; i++) {
             PyObject *x = v->u.nodes[i];
             if (x) {
                 v->u.nodes[i] = 0;
diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index 90b6d17..ce410c2 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -392,6 +392,18 @@ mutnodeset_gc_clear(NyNodeSetObject *v)
     return 0;
 }
 
+int NyNodeSet_clear(NyNodeSetObject *v);
+
+static int
+mutnodeset_tp_clear(NyNodeSetObject *v)
+{
+    /* May be used after this, by something that is cleared later. */
+    if (NyMutNodeSet_Check(v) && v->u.bitset && NyNodeSet_clear(v) == -1)
+        PyErr_Clear();
+    Py_CLEAR(v->_hiding_tag_);
+    return 0;
+}
+
 static void
 mutnodeset_dealloc(NyNodeSetObject *v)
 {
@@ -1173,7 +1185,7 @@ PyTypeObject NyNodeSet_Type = {
     .tp_flags       = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_HAVE_GC | Py_TPFLAGS_BASETYPE,
     .tp_doc         = nodeset_doc,
     .tp_traverse    = (traverseproc)mutnodeset_gc_traverse,
-    .tp_clear       = (inquiry)mutnodeset_gc_clear,
+    .tp_clear       = (inquiry)mutnodeset_tp_clear,
     .tp_richcompare = (richcmpfunc)nodeset_richcompare,
     .tp_getset      = nodeset_getset,
     .tp_alloc       = PyType_GenericAlloc,
@@ -1192,7 +1204,7 @@ PyTypeObject NyMutNodeSet_Type = {
     .tp_flags       = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_HAVE_GC | Py_TPFLAGS_BASETYPE,
     .tp_doc         = mutnodeset_doc,
     .tp_traverse    = (traverseproc)mutnodeset_gc_traverse,
-    .tp_clear       = (inquiry)mutnodeset_gc_clear,
+    .tp_clear       = (inquiry)mutnodeset_tp_clear,
     .tp_richcompare = (richcmpfunc)nodeset_richcompare,
     .tp_iter        = (getiterfunc)mutnodeset_iter,
     .tp_methods     = mutnodeset_methods,
-- 
2.43.0


From ce8dc530841ffd1d237780d6ae0f858e2ae81913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 41/86] fix: a partition of one row starts at index 0 and has
 only the objects of its row

---
 guppy/heapy/Part.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index a154608..334e61d 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -718,13 +718,15 @@ class SetPartition(Partition):
 
 class FastPartition(SetPartition):
     def __init__(self, mod, parent, row):
-        Partition.__init__(self, mod, parent.set, parent.er)
+        Partition.__init__(self, mod, row.set, parent.er)
 
         self.count = row.count
         self.kindheader = parent.kindheader
         self.kindname = ''
         self.numrows = 1
-        self.rows = [row]
+        # The row is the first and only one of this partition.
+        self.rows = [PartRow(row.count, row.size, row.name, 0, row.size,
+                             row.set, row.kind)]
         self.size = row.size
 
         self.init_format(SetFormat)
-- 
2.43.0


From 6f9cd85d1aedc591d5fde4ed6700eee30de7db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 42/86] fix: an error raised by __sizeof__ is propagated

---
 src/heapy/hv.c              | 5 ++++-
 src/heapy/hv_cli_indisize.c | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 22037a6..cac79f3 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -979,7 +979,10 @@ typedef struct {
 static int
 hv_indisize_sum_rec(PyObject *obj, SalArg *ta)
 {
-    ta->sum += hv_std_size(ta->hv, obj);
+    size_t z = hv_std_size(ta->hv, obj);
+    if (z == (size_t)-1 && PyErr_Occurred())
+        return -1;
+    ta->sum += z;
     return 0;
 }
 
diff --git a/src/heapy/hv_cli_indisize.c b/src/heapy/hv_cli_indisize.c
index 95b8401..1c3e425 100644
--- a/src/heapy/hv_cli_indisize.c
+++ b/src/heapy/hv_cli_indisize.c
@@ -25,8 +25,11 @@ hv_cli_indisize_memoized_kind(IndisizeObject *self, PyObject *size)
 static PyObject *
 hv_cli_indisize_classify(IndisizeObject *self, PyObject *obj)
 {
-    PyObject *size = PyLong_FromSsize_t(hv_std_size(self->hv, obj));
-    PyObject *memoedsize;
+    Py_ssize_t z = hv_std_size(self->hv, obj);
+    PyObject *size, *memoedsize;
+    if (z == -1 && PyErr_Occurred())
+        return 0;
+    size = PyLong_FromSsize_t(z);
     if (!size)
         return size;
     memoedsize = hv_cli_indisize_memoized_kind(self, size);
-- 
2.43.0


From 44b8e22cc582185ccb35556197737659c4cdd07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 43/86] fix: static types that become visible later are owners
 of their dictionaries

---
 src/heapy/hv.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index cac79f3..d3f826d 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -959,10 +959,8 @@ hv_heap(NyHeapViewObject *self, PyObject *args, PyObject *kwds)
     }
     if (hv_cleanup_mutset(ta.hv, ta.visited) == -1)
         goto err;
-    if (PyObject_Length(self->static_types) == 0) {
-        if (hv_update_static_types(self, (PyObject *)ta.visited) == -1)
-            goto err;
-    }
+    if (hv_update_static_types(self, (PyObject *)ta.visited) == -1)
+        goto err;
     Py_XDECREF(ta.to_visit);
     return (PyObject *)ta.visited;
 err:
-- 
2.43.0


From e9589de53f6136f62702daab13af2fbdd2f4456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 44/86] fix: kinds of classes whose metaclass defines equality
 or hashing are told apart by identity

---
 guppy/heapy/Classifiers.py | 27 ++++++++++++++++++++++++---
 guppy/heapy/UniSet.py      | 30 +++++++++++++++++++-----------
 2 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 4a88794..94d0ad1 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -207,6 +207,10 @@ class IdentityFamily:
             return a.arg is b.arg
         return self.supercl is not None and self.supercl <= b
 
+    def c_hash(self, a):
+        # By identity: the object itself may not be hashable
+        return hash(id(a.arg))
+
     def c_contains(self, a, b):
         return b is a.arg
 
@@ -396,6 +400,23 @@ class TypeFamily:
             raise TypeError("Argument should be a type.")
         return self.Set(self, a)
 
+    def _ge_ATOM(self, a, b):
+        # b is known to not be Nothing since its c_le doesn't call back
+        if self is b.fam:
+            return a.arg is b.arg
+        return b.fam.supercl is not None and b.fam.supercl <= a
+
+    def _le_ATOM(self, a, b):
+        # b is known to not be Nothing since its c_ge doesn't call back
+        if self is b.fam:
+            return a.arg is b.arg
+        return self.supercl is not None and self.supercl <= b
+
+    def c_hash(self, a):
+        # By identity: a metaclass may define its own idea of
+        # equality, or none of hashing
+        return hash(id(a.arg))
+
     def c_alt(self, a, alt):
         return self.classifier.get_alt(a, alt)
 
@@ -443,8 +464,8 @@ The classification will be the type of the object."""
     def get_repr(self, kind):
         t = kind.arg
         rn = self.get_reprname()
-        if t in self.mod.invtypemod:
-            return '%s.%s' % (rn, self.mod.invtypemod[t])
+        if id(t) in self.mod.invtypemod:
+            return '%s.%s' % (rn, self.mod.invtypemod[id(t)])
         else:
             return '%s(%r)' % (rn, self.get_userkindarg(kind))
 
@@ -1450,7 +1471,7 @@ the object.
         invtypemod = {}
         for k, v in list(self.types._module.__dict__.items()):
             if k.endswith('Type'):
-                invtypemod[v] = k[:-4]
+                invtypemod[id(v)] = k[:-4]
         return invtypemod
 
     def _get_notdict(self):
diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index 8db8117..4cbfc7b 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -1951,13 +1951,18 @@ class Summary_str:
     def __init__(self, mod):
         self.mod = mod
         types = mod.types._module
+        # The tables are by identity: a type need not be hashable, if its
+        # metaclass is special. The types are kept so that the ids stay valid.
+        self.types = []
         self.invtypes = {}
         for k, v in sorted(types.__dict__.items()):
             if isinstance(v, type):
-                self.invtypes[v] = 'types.%s' % k
+                self.types.append(v)
+                self.invtypes[id(v)] = 'types.%s' % k
         for k, v in sorted(types.__builtins__.items()):
             if isinstance(v, type):
-                self.invtypes[v] = k
+                self.types.append(v)
+                self.invtypes[id(v)] = k
 
         # This is to make common printouts prettier / shorter (: and clearer ? :)
         # but may be disabled for clearer repr()
@@ -1965,7 +1970,7 @@ class Summary_str:
         self.shorter_invtypes = {}
         for name in ('module', 'function'):
             t = getattr(types, name.capitalize()+'Type')
-            self.shorter_invtypes[t] = name
+            self.shorter_invtypes[id(t)] = name
 
         self.table = {
             mod.NodeSet: self.str_address_len,
@@ -1988,9 +1993,11 @@ class Summary_str:
             tuple: self.str_address_len,
             type: self.str_type,
         }
+        self.types.extend(self.table)
+        self.table = {id(k): v for k, v in self.table.items()}
 
     def __call__(self, key, longer=False):
-        x = self.table.get(key)
+        x = self.table.get(id(key))
         if x is None:
             if issubclass(key, type):
                 x = self.str_type
@@ -2002,7 +2009,8 @@ class Summary_str:
             return x
 
     def set_function(self, type, func):
-        self.table[type] = func
+        self.types.append(type)
+        self.table[id(type)] = func
 
     def str_address(self, x):
         return hex(id(x))
@@ -2071,18 +2079,18 @@ class Summary_str:
     str_traceback._idpart_header = 'Frame at Address'
 
     def str_type(self, x, longer=False):
-        if x in self.shorter_invtypes and not longer:
-            return self.shorter_invtypes[x]
-        if x in self.invtypes:
-            return self.invtypes[x]
+        if id(x) in self.shorter_invtypes and not longer:
+            return self.shorter_invtypes[id(x)]
+        if id(x) in self.invtypes:
+            return self.invtypes[id(x)]
         if not hasattr(x, '__module__'):
             return f'<unknown module>.{x.__name__}'
         return f'{x.__module__}.{x.__name__}'
     str_type._idpart_header = 'Name'
 
     def str_type_longer(self, x):
-        if x in self.invtypes:
-            return self.invtypes[x]
+        if id(x) in self.invtypes:
+            return self.invtypes[id(x)]
         return '%s.%s' % (x.__module__, x.__name__)
     str_type._longer_method = lambda x: str_type
 
-- 
2.43.0


From 048f5fb5632bfe27c6f5eb9435dada5d9b4a8bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 45/86] fix: selecting dictionaries without owner when the
 owners are classified by a combination

---
 src/heapy/hv_cli_dictof.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/heapy/hv_cli_dictof.c b/src/heapy/hv_cli_dictof.c
index 432f3ef..ffe1e70 100644
--- a/src/heapy/hv_cli_dictof.c
+++ b/src/heapy/hv_cli_dictof.c
@@ -171,7 +171,9 @@ hv_cli_dictof_classify(DictofObject *self, PyObject *obj)
 static PyObject *
 hv_cli_dictof_memoized_kind(DictofObject *self, PyObject *obj)
 {
-    if (self->ownerclassifier->def->memoized_kind)
+    /* The tags are not kinds of the owner classifier */
+    if (obj != self->notdictkind && obj != self->notownedkind &&
+        self->ownerclassifier->def->memoized_kind)
         return self->ownerclassifier->def->memoized_kind(self->ownerclassifier->self, obj);
     else {
         Py_INCREF(obj);
-- 
2.43.0


From cab5da25e8bed11afd261f4d1652e1882111a6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 46/86] fix: the incoming relations of a type include that of
 its instances

---
 src/heapy/hv_cli_rel.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/heapy/hv_cli_rel.c b/src/heapy/hv_cli_rel.c
index 8e67f94..13630cc 100644
--- a/src/heapy/hv_cli_rel.c
+++ b/src/heapy/hv_cli_rel.c
@@ -295,7 +295,6 @@ hv_cli_inrel_classify(InRelObject * self, PyObject *obj)
 {
     NyNodeGraphEdge *lo, *hi, *cur;
     PyObject *result;
-    ExtraType *xt;
     hv_cli_inrel_visit_arg crva;
     crva.hr.flags = 0;
     crva.hr.hv = (PyObject *)self->hv;
@@ -317,12 +316,9 @@ hv_cli_inrel_classify(InRelObject * self, PyObject *obj)
         if (cur->tgt == Py_None)
             continue;
         crva.hr.src = cur->tgt;
-        xt = hv_extra_type(self->hv, Py_TYPE(crva.hr.src));
-        assert (xt->xt_hv == self->hv);
         assert(self->hv == (void *)crva.hr.hv);
 
-        if (xt->xt_relate(xt, &crva.hr) == -1 || crva.err) {
-            /* fprintf(stderr, "xt 0x%x\n", xt); */
+        if (hv_std_relate(&crva.hr) == -1 || crva.err) {
             goto Err;
         }
     }
-- 
2.43.0


From 0123aa27750f3c1fc3418070707d887f9be058d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:07 +0000
Subject: [PATCH 47/86] fix: derived equivalence relations of different
 classifiers with equal names are not mixed up

---
 guppy/heapy/Classifiers.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 94d0ad1..660eb3e 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -5,6 +5,8 @@ class Classifier:
     def __init__(self, mod, name, cli=None, supers=(), depends=(), with_referrers=False):
         self.mod = mod
         self.name = name
+        # Equivalence relations made from self.
+        self.memo_er = {}
         if cli is not None:
             self.cli = cli
         # Set of all super-classifiers (including self).
@@ -48,6 +50,7 @@ class Classifier:
     def get_dictof(self, kind):
         name = '%s.dictof' % self.name
         er = self.mod.mker_memoized(
+            self,
             name,
             lambda:
             self.mod._er_by_(ByDictOwner, self.mod, name, self))
@@ -1325,23 +1328,24 @@ class _GLUECLAMP_:
         if name is None:
             name = '%s.dictof' % er.classifier.name
         return self.mker_memoized(
+            er.classifier,
             name,
             lambda:
             self._er_by_(ByDictOwner, self, name, er.classifier))
 
-    def _get_memo_er(self):
-        return {}
-
-    def mker_memoized(self, name, f):
-        v = self.memo_er.get(name)
+    def mker_memoized(self, classifier, name, f):
+        # Memoized in the classifier it is made from: the names of different
+        # classifiers may be equal.
+        v = classifier.memo_er.get(name)
         if v is None:
-            self.memo_er[name] = v = f()
+            classifier.memo_er[name] = v = f()
         return v
 
     def mker_refdby(self, er, name=None):
         if name is None:
             name = '%s.refdby' % er.classifier.name
         return self.mker_memoized(
+            er.classifier,
             name,
             lambda:
             self._er_by_(
-- 
2.43.0


From 1d34e5c04e93d2dc9928553e9996e8f78402373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:49 +0000
Subject: [PATCH 48/86] fix: a destructor that calls that of its base class
 does not loop while there is a horizon

---
 src/heapy/horizon.c | 92 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 66 insertions(+), 26 deletions(-)

diff --git a/src/heapy/horizon.c b/src/heapy/horizon.c
index ebf53d1..94f98a3 100644
--- a/src/heapy/horizon.c
+++ b/src/heapy/horizon.c
@@ -32,18 +32,57 @@ static struct {
     PyObject *types;
 } rm;
 
+/* The deallocations this thread is in. The destructor of a type may call that
+   of a base, which may be patched too. */
+
+#ifdef _MSC_VER
+#define HORIZON_THREAD_LOCAL __declspec(thread)
+#else
+#define HORIZON_THREAD_LOCAL __thread
+#endif
+
+typedef struct _HorizonDealloc {
+    PyObject *v;
+    PyTypeObject *type; /* that of v */
+    PyTypeObject *base; /* the one whose original destructor was called */
+    struct _HorizonDealloc *prev;
+} HorizonDealloc;
+
+static HORIZON_THREAD_LOCAL HorizonDealloc *horizon_deallocs;
+
 static void horizon_patched_dealloc(PyObject *v);
 
+static PyTypeObject *
+horizon_base(PyTypeObject *t)
+{
+    while (t->tp_flags & Py_TPFLAGS_HEAPTYPE) {
+        assert(t->tp_base);
+        assert(Py_TYPE(t) == Py_TYPE(t->tp_base) ||
+            PyObject_IsSubclass((PyObject *)Py_TYPE(t), (PyObject *)Py_TYPE(t->tp_base)));
+        t = t->tp_base;
+    }
+    return t;
+}
+
 static destructor
-horizon_get_org_dealloc(PyTypeObject *t)
+horizon_get_org_dealloc(PyTypeObject **tp)
 {
-    if (!rm.types && t->tp_dealloc != horizon_patched_dealloc)
+    PyTypeObject *t;
+    for (t = *tp; t && rm.types; t = t->tp_base) {
+        if (t->tp_dealloc == horizon_patched_dealloc) {
+            PyObject *d = PyDict_GetItem(rm.types, (PyObject *)t);
+            if (d) {
+                *tp = t;
+                return (destructor)PyLong_AsSsize_t(d);
+            }
+        }
+    }
+    /* The last horizon went while the object was being deallocated */
+    t = horizon_base(*tp);
+    if (t->tp_dealloc != horizon_patched_dealloc) {
+        *tp = t;
         return t->tp_dealloc;
-
-    PyObject *d = PyDict_GetItem(rm.types, (PyObject *)t);
-    if (d)
-        return (destructor)PyLong_AsSsize_t(d);
-
+    }
     Py_FatalError("horizon_get_org_dealloc: no original destructor found");
 }
 
@@ -77,29 +116,30 @@ horizon_dealloc(NyHorizonObject *rg)
 }
 
 
-static PyTypeObject *
-horizon_base(PyObject *v)
-{
-    PyTypeObject *t = Py_TYPE(v);
-    while (t->tp_flags & Py_TPFLAGS_HEAPTYPE) {
-        assert(t->tp_base);
-        assert(Py_TYPE(t) == Py_TYPE(t->tp_base) ||
-            PyObject_IsSubclass((PyObject *)Py_TYPE(t), (PyObject *)Py_TYPE(t->tp_base)));
-        t = t->tp_base;
-    }
-    return t;
-}
-
-
 static void
 horizon_patched_dealloc(PyObject *v)
 {
     NyHorizonObject *r;
-    for (r = rm.horizons; r; r = r->next) {
-        if (NyNodeSet_clrobj(r->hs, v) == -1)
-            Py_FatalError("horizon_patched_dealloc: could not clear object in nodeset");
+    HorizonDealloc *d = horizon_deallocs;
+    HorizonDealloc hd;
+    destructor org;
+    hd.v = v;
+    hd.type = Py_TYPE(v);
+    hd.base = hd.type;
+    hd.prev = d;
+    if (d && d->v == v && d->type == hd.type) {
+        /* Called by the destructor of a derived type */
+        hd.base = d->base->tp_base;
+    } else {
+        for (r = rm.horizons; r; r = r->next) {
+            if (NyNodeSet_clrobj(r->hs, v) == -1)
+                Py_FatalError("horizon_patched_dealloc: could not clear object in nodeset");
+        }
     }
-    horizon_get_org_dealloc(horizon_base(v))(v);
+    org = horizon_get_org_dealloc(&hd.base);
+    horizon_deallocs = &hd;
+    org(v);
+    horizon_deallocs = d;
 }
 
 static int
@@ -127,7 +167,7 @@ horizon_update_trav(PyObject *obj, NyHorizonObject *ta) {
     int r;
     r = NyNodeSet_setobj(ta->hs, obj);
     if (!r) {
-        PyTypeObject *t = horizon_base(obj);
+        PyTypeObject *t = horizon_base(Py_TYPE(obj));
         if (t->tp_dealloc != horizon_patched_dealloc) {
             if (horizon_patch_dealloc(t) == -1) {
                 return -1;
-- 
2.43.0


From 3473371f69b18335dc121f4cde07722ddf7522bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:49 +0000
Subject: [PATCH 49/86] fix: a horizon notices the death of objects of heap
 types defined in C

---
 src/heapy/horizon.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/heapy/horizon.c b/src/heapy/horizon.c
index 94f98a3..0ddfbdb 100644
--- a/src/heapy/horizon.c
+++ b/src/heapy/horizon.c
@@ -30,6 +30,7 @@ typedef struct _NyHorizonObject {
 static struct {
     NyHorizonObject *horizons;
     PyObject *types;
+    destructor subtype_dealloc; /* that of classes made in Python */
 } rm;
 
 /* The deallocations this thread is in. The destructor of a type may call that
@@ -52,10 +53,28 @@ static HORIZON_THREAD_LOCAL HorizonDealloc *horizon_deallocs;
 
 static void horizon_patched_dealloc(PyObject *v);
 
+static int
+horizon_init_subtype_dealloc(void)
+{
+    PyObject *t;
+    if (rm.subtype_dealloc)
+        return 0;
+    t = PyObject_CallFunction((PyObject *)&PyType_Type, "s(){}", "t");
+    if (!t)
+        return -1;
+    rm.subtype_dealloc = ((PyTypeObject *)t)->tp_dealloc;
+    Py_DECREF(t);
+    return 0;
+}
+
+/* The type whose tp_dealloc really deallocates an instance of t.
+   This may be a heap type, when it was defined in C. */
+
 static PyTypeObject *
 horizon_base(PyTypeObject *t)
 {
-    while (t->tp_flags & Py_TPFLAGS_HEAPTYPE) {
+    while (t->tp_flags & Py_TPFLAGS_HEAPTYPE &&
+           t->tp_dealloc == rm.subtype_dealloc) {
         assert(t->tp_base);
         assert(Py_TYPE(t) == Py_TYPE(t->tp_base) ||
             PyObject_IsSubclass((PyObject *)Py_TYPE(t), (PyObject *)Py_TYPE(t->tp_base)));
@@ -190,6 +209,8 @@ horizon_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
                                  kwlist,
                                  &X))
         goto err;
+    if (horizon_init_subtype_dealloc() == -1)
+        goto err;
     hz = (NyHorizonObject *)type->tp_alloc(type, 1);
     if (!hz)
         goto err;
-- 
2.43.0


From 82ea0d9a4cba248684ff837d9e3d96c177d7e0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:49 +0000
Subject: [PATCH 50/86] fix: deep structures can be deallocated while there is
 a horizon

---
 src/heapy/horizon.c | 83 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 78 insertions(+), 5 deletions(-)

diff --git a/src/heapy/horizon.c b/src/heapy/horizon.c
index 0ddfbdb..0dcc171 100644
--- a/src/heapy/horizon.c
+++ b/src/heapy/horizon.c
@@ -51,6 +51,76 @@ typedef struct _HorizonDealloc {
 
 static HORIZON_THREAD_LOCAL HorizonDealloc *horizon_deallocs;
 
+/* The trashcan of the interpreter, which limits the depth of nested
+   deallocations, is not used for a type whose tp_dealloc was replaced. So it
+   is done here: beyond a depth the deallocation is put off. */
+
+#define HORIZON_MAX_NESTING 50
+
+typedef struct {
+    PyObject *v;
+    PyTypeObject *base;
+    destructor org;
+} HorizonLater;
+
+static HORIZON_THREAD_LOCAL struct {
+    int nesting;
+    HorizonLater *later;
+    Py_ssize_t size, allo;
+} horizon_nest;
+
+static int
+horizon_put_off(HorizonDealloc *hd, destructor org)
+{
+    HorizonLater *l;
+    if (horizon_nest.size >= horizon_nest.allo) {
+        Py_ssize_t allo = horizon_nest.allo * 2 + 16;
+        l = PyMem_Realloc(horizon_nest.later, allo * sizeof(*l));
+        if (!l)
+            return 0;
+        horizon_nest.later = l;
+        horizon_nest.allo = allo;
+    }
+    l = &horizon_nest.later[horizon_nest.size++];
+    l->v = hd->v;
+    l->base = hd->base;
+    l->org = org;
+    if (PyObject_IS_GC(l->v))
+        PyObject_GC_UnTrack(l->v);
+    return 1;
+}
+
+static void
+horizon_call_org(HorizonDealloc *hd, destructor org)
+{
+    hd->prev = horizon_deallocs;
+    horizon_deallocs = hd;
+    horizon_nest.nesting++;
+    org(hd->v);
+    horizon_nest.nesting--;
+    horizon_deallocs = hd->prev;
+}
+
+static void
+horizon_do_later(void)
+{
+    while (!horizon_nest.nesting && horizon_nest.size) {
+        HorizonLater l = horizon_nest.later[--horizon_nest.size];
+        HorizonDealloc hd;
+        hd.v = l.v;
+        hd.type = Py_TYPE(l.v);
+        hd.base = l.base;
+        if (PyObject_IS_GC(l.v))
+            PyObject_GC_Track(l.v);
+        horizon_call_org(&hd, l.org);
+    }
+    if (!horizon_nest.nesting && horizon_nest.later) {
+        PyMem_Free(horizon_nest.later);
+        horizon_nest.later = 0;
+        horizon_nest.allo = 0;
+    }
+}
+
 static void horizon_patched_dealloc(PyObject *v);
 
 static int
@@ -145,20 +215,23 @@ horizon_patched_dealloc(PyObject *v)
     hd.v = v;
     hd.type = Py_TYPE(v);
     hd.base = hd.type;
-    hd.prev = d;
     if (d && d->v == v && d->type == hd.type) {
         /* Called by the destructor of a derived type */
         hd.base = d->base->tp_base;
+        horizon_call_org(&hd, horizon_get_org_dealloc(&hd.base));
     } else {
         for (r = rm.horizons; r; r = r->next) {
             if (NyNodeSet_clrobj(r->hs, v) == -1)
                 Py_FatalError("horizon_patched_dealloc: could not clear object in nodeset");
         }
+        org = horizon_get_org_dealloc(&hd.base);
+        if (horizon_nest.nesting < HORIZON_MAX_NESTING ||
+            hd.type->tp_dealloc != horizon_patched_dealloc ||
+            !horizon_put_off(&hd, org)) {
+            horizon_call_org(&hd, org);
+            horizon_do_later();
+        }
     }
-    org = horizon_get_org_dealloc(&hd.base);
-    horizon_deallocs = &hd;
-    org(v);
-    horizon_deallocs = d;
 }
 
 static int
-- 
2.43.0


From 8e95a45144c0995486768a87e311ac5e9d3a8b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 51/86] fix: a horizon that cannot be made for lack of memory
 does not crash

---
 src/heapy/horizon.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/heapy/horizon.c b/src/heapy/horizon.c
index 0dcc171..96092ba 100644
--- a/src/heapy/horizon.c
+++ b/src/heapy/horizon.c
@@ -277,6 +277,7 @@ horizon_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 
     PyObject *X;
     NyHorizonObject *hz = 0;
+    NyNodeSetObject *hs;
     static char *kwlist[] = {"X", 0};
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O:Horizon.__new__",
                                  kwlist,
@@ -284,14 +285,17 @@ horizon_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
         goto err;
     if (horizon_init_subtype_dealloc() == -1)
         goto err;
+    hs = NyMutNodeSet_NewFlags(0); /* I.E. not NS_HOLDOBJECTS */
+    if (!hs)
+        goto err;
     hz = (NyHorizonObject *)type->tp_alloc(type, 1);
-    if (!hz)
+    if (!hz) {
+        Py_DECREF(hs);
         goto err;
+    }
+    hz->hs = hs;
     hz->next = rm.horizons;
     rm.horizons = hz;
-    hz->hs = NyMutNodeSet_NewFlags(0); /* I.E. not NS_HOLDOBJECTS */
-    if (!hz->hs)
-        goto err;
     if (iterable_iterate((PyObject *)X, (visitproc)horizon_update_trav, hz) == -1 ||
         horizon_update_trav((PyObject *)hz, hz) == -1)
         goto err;
-- 
2.43.0


From a17ccf1a3abc130eca2af0310a7a0f89852a9d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 52/86] fix: an interrupted traversal of a frame does not keep
 the calling frame alive

---
 src/heapy/stdtypes.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index f9c1130..ca884ec 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -429,8 +429,10 @@ frame_traverse(NyHeapTraverse *ta) {
     /* _PyFrame_Traverse is not exposed and CPython's frame_traverse only
       calls it when FRAME_OWNED_BY_FRAME_OBJECT :( */
     PyFrameObject *next_frame = PyFrame_GetBack(v);
-    Py_VISIT(next_frame);
+    int err = next_frame ? visit((PyObject *)next_frame, arg) : 0;
     Py_XDECREF(next_frame);
+    if (err)
+        return err;
 
     Py_VISIT(v->f_trace);
 # if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 12
-- 
2.43.0


From 11770edf80ca611965037c410f6be0729c387950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 53/86] fix: an interrupt while caches are cleared at a
 collection does not make them stale

---
 guppy/heapy/Classifiers.py |  4 +++-
 guppy/heapy/View.py        | 25 +++++++++++++++----------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 660eb3e..a19c722 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -33,7 +33,8 @@ class Classifier:
             self.call_with_referrers = mod.View.call_with_referrers
 
     def call_with_referrers(self, x, f):
-        # Default is to not use referrers.
+        # Default is to not use referrers. But dictionary owners may be used.
+        self.mod.View.clear_lost()
         return f(x)
 
     # This is not redefined by subclass unless they set cli property.
@@ -638,6 +639,7 @@ class ByDictOwner(Classifier):
         p = self.partition_cli(X.nodes)
         ns = self.mod.ImpSet.mutnodeset()
         drg = self.ownership
+        self.mod.View.clear_lost()
         for k in X.nodes:
             t = drg[k]
             if not t:
diff --git a/guppy/heapy/View.py b/guppy/heapy/View.py
index 35ecce7..abbd11b 100644
--- a/guppy/heapy/View.py
+++ b/guppy/heapy/View.py
@@ -98,22 +98,25 @@ class _GLUECLAMP_:
         return self.mutnodeset()
 
     def clear_check(self):
-        ch = self._clear_hook
-        try:
-            wr = list(ch)[0]
-        except IndexError:
-            self.clear_setup()
-        else:
+        self.clear_lost()
+        for wr in list(self._clear_hook):
             # When tracing is enabled, each local variable gets two references.
             # See Guppy 3 issue #3.
             c = [wr()]
-            if c[0] is None:
-                self.clear_setup()
-            elif self._root.sys.getrefcount(c[0]) > 3:
+            if c[0] is not None and self._root.sys.getrefcount(c[0]) > 3:
                 print('GC hook object was referred to from somebody!')
                 self.clear_callback(wr)
                 c[0].cb.callback = None
 
+    def clear_lost(self):
+        # The callback may have been interrupted, when it may have neither
+        # cleared what it should nor set up the hook for the next collection.
+        if self.clear_methods:
+            for wr in list(self._clear_hook):
+                if wr() is not None:
+                    return
+            self.clear_callback(None)
+
     def clear_callback(self, wr):
         self._clear_hook.clear()
         for m in self.clear_methods:
@@ -132,8 +135,9 @@ class _GLUECLAMP_:
         return []
 
     def clear_register_method(self, m):
+        # The hook is set up by clear_lost(), which also notices that a
+        # previous one was lost.
         self.clear_methods.append(m)
-        self.clear_check()
 
     def _get_dict_ownership(self):
         drg = self.nodegraph()
@@ -199,6 +203,7 @@ class _GLUECLAMP_:
         state.is_stale = state.is_partial = False
 
     def _check_rg(self):
+        self.clear_lost()
         state = self.referrers_state
         if not state.lock and (state.is_stale or state.is_partial):
             self._clear_rg()
-- 
2.43.0


From cbddf980b1f68efa3acf103f104fc931f6e4d4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 54/86] fix: a set of objects whose total size is zero can be
 shown

---
 guppy/heapy/Part.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 334e61d..a36b747 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -1,3 +1,8 @@
+def percent(part, total):
+    # The objects may have no size at all.
+    return part * 100.0 / total if total else 0.0
+
+
 class Format(object):
     __slots__ = 'impl', 'mod'
 
@@ -87,9 +92,9 @@ class SetFormat(Format):
         impl = self.impl
         fr = format % (
             row.index,
-            row.count, int('%.0f' % (row.count * 100.0/impl.count)),
-            row.size, int('%.0f' % (row.size * 100.0/impl.size)),
-            row.cumulsize, int('%.0f' % (row.cumulsize * 100.0/impl.size)),
+            row.count, int('%.0f' % percent(row.count, impl.count)),
+            row.size, int('%.0f' % percent(row.size, impl.size)),
+            row.cumulsize, int('%.0f' % percent(row.cumulsize, impl.size)),
         )
         return fr
 
@@ -123,8 +128,8 @@ class IdFormat(Format):
         format = '%6d %8d %5.1f %9d %5.1f '
         fr = format % (
             row.index,
-            row.size, (row.size * 100.0/impl.size),
-            row.cumulsize, row.cumulsize * 100.0/impl.size,
+            row.size, percent(row.size, impl.size),
+            row.cumulsize, percent(row.cumulsize, impl.size),
         )
         return fr
 
-- 
2.43.0


From 8a8fee3f740f7527ca444f1085f6557441656295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 55/86] fix: rows of kinds are found wherever they are in the
 table

---
 guppy/heapy/Part.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index a36b747..c1ffb3a 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -398,9 +398,9 @@ class Stat:
         n = 0
         for row in self.get_rows():
             idx = kindtab.get(row.name)
-            if idx is not None:
+            if idx is not None and res[idx] is None:
                 res[idx] = row
-            n += 1
+                n += 1
             if n >= N:
                 break
         return res
-- 
2.43.0


From b7248d19538b58b8575f9f1beff249549da76cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 56/86] fix: reading a dump without rows does not continue with
 the next one

---
 guppy/heapy/Part.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index c1ffb3a..1ea0c35 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -220,7 +220,7 @@ class Stat:
         self.rows = []
 
         r = self.get_next()
-        while r and not r.startswith('.r:'):
+        while r and not r.startswith(('.r:', '.end:')):
             name = r[1:r.index(':')]
             value = r[r.index(':')+1:].strip()
             try:
-- 
2.43.0


From 88cff3e4fdd54f7772b0c566b253ef074f3e2a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 57/86] fix: names with line breaks do not make a dump
 unreadable

---
 guppy/heapy/Part.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 1ea0c35..cb90fd3 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -3,6 +3,11 @@ def percent(part, total):
     return part * 100.0 / total if total else 0.0
 
 
+def one_line(s):
+    # The name of a class may have line breaks; a dump is made of lines.
+    return s.replace('\n', ' ').replace('\r', ' ')
+
+
 class Format(object):
     __slots__ = 'impl', 'mod'
 
@@ -536,11 +541,11 @@ class Partition:
         yield '.timemade: %f' % self.timemade
         yield '.count: %d' % self.count
         yield '.size: %d' % self.size
-        yield '.kindname: %s' % self.kindname
-        yield '.kindheader: %s' % self.kindheader
+        yield '.kindname: %s' % one_line(self.kindname)
+        yield '.kindheader: %s' % one_line(self.kindheader)
         yield '.numrows: %d' % self.numrows
         for row in self.get_rows():
-            yield '.r: %s' % self.format.get_rowdata(row)
+            yield '.r: %s' % one_line(self.format.get_rowdata(row))
 
     def init_format(self, FormatClass):
         self.format = FormatClass(self)
-- 
2.43.0


From c349d42d0db6011533c269d6ad95f4170d3d6a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 58/86] fix: loadall ends at the end of the file

---
 guppy/heapy/Use.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Use.py b/guppy/heapy/Use.py
index 29f16b7..159226d 100644
--- a/guppy/heapy/Use.py
+++ b/guppy/heapy/Use.py
@@ -296,7 +296,11 @@ References
         if isinstance(f, str):
             f = open(f)
         while True:
-            yield self.load(f)
+            try:
+                stat = self.load(f)
+            except StopIteration:
+                return
+            yield stat
 
     def loadc(self, fn):
         f = open(fn, 'r', 1)
-- 
2.43.0


From 64fcc2601950263c9732fae45891bcc9d1440112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 59/86] fix: a dump that was cut short is not read as if it
 were complete

---
 guppy/heapy/Part.py | 20 +++++++++++++++-----
 guppy/heapy/Use.py  | 13 +++++++++++--
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index cb90fd3..86c55a8 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -219,6 +219,7 @@ class Stat:
         self.firstheader = firstheader
 
         self.it = iter(get_trows())
+        self.is_failed = False
 
         self.cur_index = 0
         self.cum_size = 0
@@ -235,6 +236,10 @@ class Stat:
             setattr(self, name, value)
             r = self.get_next()
 
+        for name in ('format', 'timemade', 'count', 'size', 'kindheader', 'numrows'):
+            if name not in self.__dict__:
+                raise ValueError('Format error: no .%s directive.' % name)
+
         self.format_name = self.format
         self.format_class = getattr(self.mod, self.format)
         self.format = self.format_class(self)
@@ -365,12 +370,16 @@ class Stat:
                 f.close()
 
     def get_next(self):
+        if self.is_failed:
+            raise ValueError('The data could not be read completely.')
+        self.is_failed = True
         try:
             r = next(self.it)
         except StopIteration:
             r = None
         else:
             r = r.rstrip('\n')
+        self.is_failed = False
         self.last = r
         return r
 
@@ -470,19 +479,20 @@ class Stat:
 
     def parse_next_row(self):
         r = self.last
-        if not r:
+        if not r or r.startswith('.end'):
+            if len(self.rows) < self.numrows:
+                raise ValueError('Format error: %d of %d rows.' % (
+                    len(self.rows), self.numrows))
             raise IndexError('Row index out of range.')
         if r.startswith('.r: '):
+            # The row is complete when there is something after it.
+            self.get_next()
             r = r[4:]
             sr = self.format.load_statrow(r)
 
             self.cur_index += 1
             self.rows.append(sr)
-            self.get_next()
             return
-
-        elif r.startswith('.end'):
-            raise IndexError('Row index out of range.')
         else:
             raise SyntaxError
 
diff --git a/guppy/heapy/Use.py b/guppy/heapy/Use.py
index 159226d..789fa82 100644
--- a/guppy/heapy/Use.py
+++ b/guppy/heapy/Use.py
@@ -231,13 +231,21 @@ References
 
             def get_trows():
                 pos = 0
+                endline = None
                 while 1:
                     f.seek(pos)
                     line = f.readline()
-                    if not line:
+                    if not line and endline is None:
                         break
+                    if not line.endswith('\n'):
+                        raise ValueError(
+                            'Format error in %r: incomplete data.' % fn)
                     pos = f.tell()
                     yield line
+                    if endline is None:
+                        endline = '.end: %s' % line
+                    elif line == endline:
+                        break
         elif hasattr(fn, '__iter__') and not hasattr(fn, '__next__'):
             # We got a sequence, that is not an iterator. Use it directly.
             def get_trows():
@@ -271,7 +279,8 @@ References
                 else:
                     raise StopIteration
             except StopIteration:
-                trows.append(endline)
+                raise ValueError(
+                    'Format error in %r: incomplete data.' % fn) from None
 
             def get_trows():
                 return trows
-- 
2.43.0


From 180d4d468e49ca280f563deb9b6a6f76a6374f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 60/86] fix: a dump that was cut short and appended to is not
 read as one dump

---
 guppy/heapy/Part.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 86c55a8..cb8ea35 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -228,6 +228,8 @@ class Stat:
         r = self.get_next()
         while r and not r.startswith(('.r:', '.end:')):
             name = r[1:r.index(':')]
+            if name in self.__dict__ or not name.isidentifier():
+                raise ValueError('Format error: unexpected directive: %r.' % r)
             value = r[r.index(':')+1:].strip()
             try:
                 value = int(value)
@@ -239,6 +241,7 @@ class Stat:
         for name in ('format', 'timemade', 'count', 'size', 'kindheader', 'numrows'):
             if name not in self.__dict__:
                 raise ValueError('Format error: no .%s directive.' % name)
+        self.check_end()
 
         self.format_name = self.format
         self.format_class = getattr(self.mod, self.format)
@@ -477,6 +480,11 @@ class Stat:
 
         return retrows
 
+    def check_end(self):
+        if (len(self.rows) == self.numrows and self.last and
+                not self.last.startswith('.end')):
+            raise ValueError('Format error: no .end after the last row.')
+
     def parse_next_row(self):
         r = self.last
         if not r or r.startswith('.end'):
@@ -492,6 +500,7 @@ class Stat:
 
             self.cur_index += 1
             self.rows.append(sr)
+            self.check_end()
             return
         else:
             raise SyntaxError
-- 
2.43.0


From 0bae2f9eec0d3284a818357db7018f0a1b4eec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:14 +0000
Subject: [PATCH 61/86] fix: a growing profile file is read up to the last
 complete sample, each once

---
 guppy/heapy/Prof.py | 85 +++++++++++++++++++++++++++++++--------------
 1 file changed, 59 insertions(+), 26 deletions(-)

diff --git a/guppy/heapy/Prof.py b/guppy/heapy/Prof.py
index a0babaf..754279d 100644
--- a/guppy/heapy/Prof.py
+++ b/guppy/heapy/Prof.py
@@ -1,3 +1,4 @@
+import io
 from tkinter import *
 import tkinter.filedialog
 import tkinter.messagebox
@@ -134,6 +135,8 @@ class Stats:
         # automagically reopened when needed.
         self.stats = None
         del self.stats
+        self.len_stats = None
+        del self.len_stats
 
     def get_stats(self):
         self.open(self.fn)
@@ -141,32 +144,33 @@ class Stats:
 
     stats = property_nondata(get_stats)
 
+    def fileid(self, stat):
+        return stat.st_dev, stat.st_ino, stat.st_size, stat.st_mtime_ns
+
     def collect(self):
         if not self.fn:
             return 0, 0
 
-        stat = self.os.stat(self.fn)
+        self.stats  # Reopen it now if the cache was cleared.
+
+        stat = self.fileid(self.os.stat(self.fn))
         if stat == self.laststat:
             return len(self), 0
 
-        with open(self.fn) as f:
-            str = f.read(self.lastfilesize)
-            md5 = self.hashlib.md5(str.encode('utf-8'))
-            digest = md5.digest()
-            if digest == self.lastdigest:
-                numoldstats = len(self)
-            else:
-                self.loadstr(str, reset=1)
-                numoldstats = 0
-
-            str = f.read()
+        with open(self.fn, 'rb') as f:
+            # What is written after this is noticed the next time.
+            laststat = self.fileid(self.os.fstat(f.fileno()))
+            data = f.read()
 
-            self.laststat = self.os.fstat(f.fileno())
-        self.lastfilesize = self.laststat.st_size
+        digest = self.hashlib.md5(data[:self.lastfilesize]).digest()
+        if digest == self.lastdigest:
+            numoldstats = len(self)
+            self.loaddata(data, self.lastfilesize)
+        else:
+            numoldstats = 0
+            self.loaddata(data, 0, reset=1)
 
-        md5.update(str.encode('utf-8'))
-        self.lastdigest = md5.digest()
-        self.loadstr(str)
+        self.laststat = laststat
 
         numnewstats = len(self.stats)-numoldstats
 
@@ -180,17 +184,42 @@ class Stats:
             self.fn = fn
             return
 
-        with open(fn) as f:
-            str = f.read()
-            lastdigest = self.hashlib.md5(str.encode('utf-8')).digest()
-            laststat = self.os.fstat(f.fileno())
-        self.loadstr(str, reset=1)
+        with open(fn, 'rb') as f:
+            laststat = self.fileid(self.os.fstat(f.fileno()))
+            data = f.read()
+        self.loaddata(data, 0, reset=1)
 
         # Update these only if there was no exception so far.
         self.fn = fn
-        self.lastdigest = lastdigest
         self.laststat = laststat
-        self.lastfilesize = laststat.st_size
+
+    def loaddata(self, data, start, reset=0):
+        # Load what is complete. There may be an incomplete rest,
+        # that is still being written.
+        end = len(data)
+        while 1:
+            end = data.rfind(b'\n.end: ', start, end)
+            if end == -1:
+                end = start
+                break
+            nl = data.find(b'\n', end + 1)
+            if nl != -1:
+                end = nl + 1
+                break
+
+        rest = data[end:]
+        directive = b'.loader:'
+        if rest[:len(directive)] != directive[:len(rest)]:
+            raise ValueError(
+                'Format error in %r: no initial .loader directive.' % self.fn)
+
+        # Decode it in the same way as it would be by a file opened as text.
+        self.loadstr(io.TextIOWrapper(io.BytesIO(data[start:end])).read(),
+                     reset)
+
+        # Update these only if there was no exception so far.
+        self.lastdigest = self.hashlib.md5(data[:end]).digest()
+        self.lastfilesize = end
 
     def loadstr(self, str, reset=0):
         stats = []
@@ -2575,8 +2604,12 @@ class ProfileBrowser:
                 self.id_collect = None
 
     def event_collect(self):
-        o, n = self.stats.collect()
-        if n:
+        try:
+            o, n = self.stats.collect()
+        except OSError:
+            # It may be about to be replaced.
+            o, n = self.display.numstats, 0
+        if n or o != self.display.numstats:
             if o != self.display.numstats:
                 self.display.load_stats(self.stats)
             else:
-- 
2.43.0


From f330db1ab7f5a3f85d83b8dc146348116420e84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:14 +0000
Subject: [PATCH 62/86] fix: a profile display scrolled beyond the last sample
 does not stop collecting

---
 guppy/heapy/Prof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/heapy/Prof.py b/guppy/heapy/Prof.py
index 754279d..89aebcb 100644
--- a/guppy/heapy/Prof.py
+++ b/guppy/heapy/Prof.py
@@ -1481,7 +1481,7 @@ class Display:
                      int(0.5+(self.drawingarea.canvasx(0) - self.canx0) / self.xscale))
             hi = min(len(self.ymaxs),
                      int(1.5+(self.drawingarea.canvasx(self.botx) - self.canx0) / self.xscale))
-            if lo == hi:
+            if lo >= hi:
                 ymax = 1
             else:
                 ymax = max(self.ymaxs[lo:hi])
-- 
2.43.0


From 959edb55df9d80940b43eb03a498155d4e4c4f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:14 +0000
Subject: [PATCH 63/86] fix: the table of a profile browser shows the sample
 that is there now

---
 guppy/heapy/Prof.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/guppy/heapy/Prof.py b/guppy/heapy/Prof.py
index 89aebcb..3bdbc34 100644
--- a/guppy/heapy/Prof.py
+++ b/guppy/heapy/Prof.py
@@ -2617,6 +2617,7 @@ class ProfileBrowser:
                 self.display.add_stats(st)
             for c in self.mcontrols:
                 c.setnumsamples(len(self.stats))
+            self.tf.update(force=1)
 
         self.id_collect = self.frame.after(1000, self.event_collect)
 
-- 
2.43.0


From c7111802c14c8d62abeed56d1fc8c20e7fedace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:14 +0000
Subject: [PATCH 64/86] fix: a profile whose first table needs a scrollbar can
 be opened

---
 guppy/heapy/Prof.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Prof.py b/guppy/heapy/Prof.py
index 3bdbc34..b389aea 100644
--- a/guppy/heapy/Prof.py
+++ b/guppy/heapy/Prof.py
@@ -2201,7 +2201,7 @@ class TableFrame:
                 col.render(col)
             self.ap('\n')
 
-        if setscrollbar and self.auto_scrollbar:
+        if setscrollbar and self.auto_scrollbar and self.graph.inited:
             numrows = int(self.text.index('end').split('.')[0])-2
             h = int(self.text['height'])
             needs_scrollbar = numrows > h
@@ -2563,6 +2563,7 @@ class ProfileBrowser:
             self.in_configure = 0
             frame.bind('<Configure>', self.event_configure)
             self.inited = 1
+            self.tf.update(force=1)
 
         initfinal()
         # self.frame.after_idle(initfinal)
-- 
2.43.0


From d323101458692496ebd2e2025fc18e3c595a0b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:14 +0000
Subject: [PATCH 65/86] fix: a kind without a visible name can be shown in a
 profile table

---
 guppy/heapy/Prof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/heapy/Prof.py b/guppy/heapy/Prof.py
index b389aea..628eb67 100644
--- a/guppy/heapy/Prof.py
+++ b/guppy/heapy/Prof.py
@@ -2069,7 +2069,7 @@ class TableFrame:
     def putkind(self, col):
         # Must be last!
         import textwrap
-        wraplines = textwrap.wrap(self.colorow.name, width=col.width)
+        wraplines = textwrap.wrap(self.colorow.name, width=col.width) or ['']
         self.ap(col.align(wraplines[0]))
         if len(wraplines) > 1:
             initial = '\n'+' '*(self.widthbeforekind)
-- 
2.43.0


From a28f767c8063e4fb789470a12d01aef4348017fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 66/86] fix: a profile read anew after its cache was cleared is
 shown anew

---
 guppy/heapy/Prof.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/guppy/heapy/Prof.py b/guppy/heapy/Prof.py
index 628eb67..895cbf4 100644
--- a/guppy/heapy/Prof.py
+++ b/guppy/heapy/Prof.py
@@ -129,6 +129,7 @@ class Stats:
         self.os = mod.os
         self.hashlib = mod.hashlib
         self.fn = fn
+        self.is_reopened = 0
 
     def clear_cache(self):
         # It is intended to be transparently
@@ -140,6 +141,7 @@ class Stats:
 
     def get_stats(self):
         self.open(self.fn)
+        self.is_reopened = 1
         return self.stats
 
     stats = property_nondata(get_stats)
@@ -152,6 +154,10 @@ class Stats:
             return 0, 0
 
         self.stats  # Reopen it now if the cache was cleared.
+        if self.is_reopened:
+            # The file may be another one.
+            self.is_reopened = 0
+            return 0, len(self)
 
         stat = self.fileid(self.os.stat(self.fn))
         if stat == self.laststat:
-- 
2.43.0


From cbc8a46d2acf6998067dc6f98ea62024014e26af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 67/86] fix: a profile that was emptied is shown empty

---
 guppy/heapy/Prof.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/guppy/heapy/Prof.py b/guppy/heapy/Prof.py
index 895cbf4..f4ee5ff 100644
--- a/guppy/heapy/Prof.py
+++ b/guppy/heapy/Prof.py
@@ -155,10 +155,13 @@ class Stats:
 
         self.stats  # Reopen it now if the cache was cleared.
         if self.is_reopened:
-            # The file may be another one.
+            # It may be another file, so all of it counts as new.
+            self.collectnew()
             self.is_reopened = 0
             return 0, len(self)
+        return self.collectnew()
 
+    def collectnew(self):
         stat = self.fileid(self.os.stat(self.fn))
         if stat == self.laststat:
             return len(self), 0
@@ -2614,17 +2617,19 @@ class ProfileBrowser:
         try:
             o, n = self.stats.collect()
         except OSError:
-            # It may be about to be replaced.
-            o, n = self.display.numstats, 0
-        if n or o != self.display.numstats:
+            pass  # It may be about to be replaced.
+        else:
+            changed = n or o != self.mcontrols[0].numsamples
             if o != self.display.numstats:
                 self.display.load_stats(self.stats)
-            else:
+                changed = 1
+            elif n:
                 st = self.stats[-n:]
                 self.display.add_stats(st)
-            for c in self.mcontrols:
-                c.setnumsamples(len(self.stats))
-            self.tf.update(force=1)
+            if changed:
+                for c in self.mcontrols:
+                    c.setnumsamples(len(self.stats))
+                self.tf.update(force=1)
 
         self.id_collect = self.frame.after(1000, self.event_collect)
 
-- 
2.43.0


From aad0dae50402ad98fbe2ebe2c32183492bb6c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 68/86] fix: the table of a profile browser is drawn again when
 its sample is another one

---
 guppy/heapy/Prof.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/Prof.py b/guppy/heapy/Prof.py
index f4ee5ff..86665a3 100644
--- a/guppy/heapy/Prof.py
+++ b/guppy/heapy/Prof.py
@@ -2098,6 +2098,7 @@ class TableFrame:
         self.controlnames[name] = 1
         self.controls = [self.colorcontrol]
         self.lastidxs = [None]
+        self.lastshown = None
         for i, co in enumerate(self.cols):
             idx = co.idx
             if not isinstance(idx, (tuple, list)):
@@ -2133,10 +2134,12 @@ class TableFrame:
 
         idxs = [max(0, min(control.sample, len(stats)-1))
                 for control in self.controls]
-        if (idxs == self.lastidxs) and not force:
+        shown = [stats[idx] for idx in idxs] if stats else None
+        if (idxs == self.lastidxs) and (shown == self.lastshown) and not force:
             return
 
         self.lastidxs = idxs
+        self.lastshown = shown
 
         self.text['state'] = self.tothead['state'] = self.rowhead['state'] = NORMAL
 
@@ -2629,7 +2632,7 @@ class ProfileBrowser:
             if changed:
                 for c in self.mcontrols:
                     c.setnumsamples(len(self.stats))
-                self.tf.update(force=1)
+            self.tf.update()
 
         self.id_collect = self.frame.after(1000, self.event_collect)
 
-- 
2.43.0


From e74b90c3b291d9e644225c7981ea89af9cb50f1e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 69/86] fix: an interrupted report is read on from the line it
 was at

The line iterator of a printer is a generator, which ends when an exception
goes through it: after an interrupt the report ended with the lines seen so far.
---
 guppy/heapy/OutputHandling.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/guppy/heapy/OutputHandling.py b/guppy/heapy/OutputHandling.py
index 369d470..f79b35c 100644
--- a/guppy/heapy/OutputHandling.py
+++ b/guppy/heapy/OutputHandling.py
@@ -208,25 +208,30 @@ class Printer:
 
     def line_at(self, idx):
         while idx >= len(self.lines_seen):
+            # An iterator that was interrupted can not be used again. Unless
+            # it comes through here, another one takes over from where it was.
+            it, self.line_iter = self.line_iter, None
+            if it is None:
+                it = iter(self.get_line_iter())
+                for _ in self.lines_seen:
+                    next(it)
             try:
-                li = next(self.line_iter)
+                li = next(it)
             except StopIteration:
+                self.line_iter = it
                 raise IndexError
+            if isinstance(li, tuple):
+                cmd, line = li
+                if cmd == 'STOP_AFTER':
+                    self.stop_linenos[len(self.lines_seen)] = 1
             else:
-                if isinstance(li, tuple):
-                    cmd, line = li
-                    if cmd == 'STOP_AFTER':
-                        self.stop_linenos[len(self.lines_seen)] = 1
-                else:
-                    line = li
-                self.lines_seen.append(line)
+                line = li
+            self.lines_seen.append(line)
+            self.line_iter = it
 
         return self.lines_seen[idx]
 
     def lines_from(self, idx=0):
-        line_iter = self.line_iter
-        if line_iter is None:
-            line_iter = self.line_iter = self.get_line_iter()
         while 1:
             try:
                 yield self.line_at(idx)
-- 
2.43.0


From 9f5285397cebc416c1e3c9233f1bf59250d7d563 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 70/86] fix: a page that was not shown does not move the next
 one

When showing the first page again was interrupted, the next page started
from the first line.
---
 guppy/heapy/OutputHandling.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/guppy/heapy/OutputHandling.py b/guppy/heapy/OutputHandling.py
index f79b35c..4279b26 100644
--- a/guppy/heapy/OutputHandling.py
+++ b/guppy/heapy/OutputHandling.py
@@ -306,7 +306,6 @@ class Printer:
                 msg = self.get_label()
                 if msg is not None:
                     print(msg, file=ob)
-                printer._oh_next_lineno = start_lineno
 
             try:
                 nxt = next(it)
-- 
2.43.0


From d035c1c653aeab99a517ac16b9dd1dd7c9c84d24 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 71/86] fix: the page before the second one is the report

more.prev gave the internal printer object.
---
 guppy/heapy/OutputHandling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/OutputHandling.py b/guppy/heapy/OutputHandling.py
index 4279b26..918503e 100644
--- a/guppy/heapy/OutputHandling.py
+++ b/guppy/heapy/OutputHandling.py
@@ -253,7 +253,10 @@ class Printer:
         return next_lineno
 
     def _get_prev(self, mp):
-        return mp._oh_previous
+        prev = mp._oh_previous
+        if prev is self:
+            return self.client
+        return prev
 
     def _oh_get_start_lineno(self):
         return 0
-- 
2.43.0


From 54a22e7f77d8d80f18ade7a263d99bc2af704d3d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 72/86] fix: an interrupted reference pattern is not complete

After an interrupt the generator gave nothing more, and the pattern ended
with the lines that had been made before it.
---
 guppy/heapy/RefPat.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/RefPat.py b/guppy/heapy/RefPat.py
index 65c9c59..cab43ae 100644
--- a/guppy/heapy/RefPat.py
+++ b/guppy/heapy/RefPat.py
@@ -420,11 +420,16 @@ Methods
     def generate(self, ix=None):
         while ix is None or ix < 0 or ix >= len(self.lines):
             try:
-                self.lines.append(next(self.lg))
+                line = next(self.lg)
+                line.index = len(self.lines)
+                self.lines.append(line)
             except StopIteration:
                 self.isfullygenerated = 1
                 return
-            self.lines[-1].index = len(self.lines) - 1
+            except BaseException:
+                # There is nothing more to get from a failed generator
+                self.reset_nogc()
+                raise
 
     def get_row(self, key):
         try:
-- 
2.43.0


From da15fab1c73de996a13f087293b141f3d5692699 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 73/86] fix: a statistics table whose reading was interrupted
 can be read again

It was lost with 'The data could not be read completely', or, when the
interrupt came at another moment, a row was skipped.
---
 guppy/heapy/Part.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index cb8ea35..5a332f5 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -218,12 +218,8 @@ class Stat:
         self.get_trows = get_trows
         self.firstheader = firstheader
 
-        self.it = iter(get_trows())
         self.is_failed = False
-
-        self.cur_index = 0
-        self.cum_size = 0
-        self.rows = []
+        self.restart()
 
         r = self.get_next()
         while r and not r.startswith(('.r:', '.end:')):
@@ -372,17 +368,20 @@ class Stat:
             if f is not fn:
                 f.close()
 
+    def restart(self):
+        self.it = iter(self.get_trows())
+
+        self.cur_index = 0
+        self.cum_size = 0
+        self.rows = []
+
     def get_next(self):
-        if self.is_failed:
-            raise ValueError('The data could not be read completely.')
-        self.is_failed = True
         try:
             r = next(self.it)
         except StopIteration:
             r = None
         else:
             r = r.rstrip('\n')
-        self.is_failed = False
         self.last = r
         return r
 
@@ -486,11 +485,19 @@ class Stat:
             raise ValueError('Format error: no .end after the last row.')
 
     def parse_next_row(self):
+        if self.is_failed:
+            # The last row was not read completely
+            self.restart()
+            r = self.get_next()
+            while r and not r.startswith(('.r:', '.end:')):
+                r = self.get_next()
+        self.is_failed = True
         r = self.last
         if not r or r.startswith('.end'):
             if len(self.rows) < self.numrows:
                 raise ValueError('Format error: %d of %d rows.' % (
                     len(self.rows), self.numrows))
+            self.is_failed = False
             raise IndexError('Row index out of range.')
         if r.startswith('.r: '):
             # The row is complete when there is something after it.
@@ -501,6 +508,7 @@ class Stat:
             self.cur_index += 1
             self.rows.append(sr)
             self.check_end()
+            self.is_failed = False
             return
         else:
             raise SyntaxError
-- 
2.43.0


From be54b724430ec8d656a6d4c56390c85c191c1256 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 74/86] fix: reference patterns by size, and of modules, can be
 shown

The objects of a kind that is not a type were rendered as if it were one,
and the objects that are not of a kind as if they were.
---
 guppy/heapy/Classifiers.py | 5 +----
 guppy/heapy/UniSet.py      | 3 ---
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index a19c722..4492206 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -355,9 +355,6 @@ class IndiSizeFamily:
     def c_contains(self, a, b):
         return a.arg == self.classifier.cli.classify(b)
 
-    def c_get_render(self, a):
-        return self.mod.summary_str(a.arg)
-
     def c_get_brief(self, a):
         return '<size = %d>' % a.arg
 
@@ -1053,7 +1050,7 @@ class ModuleFamily:
         return b is a.arg
 
     def c_get_render(self, a):
-        return self.mod.summary_str(a.arg)
+        return self.mod.summary_str(type(a.arg))
 
     def c_get_brief(self, a):
         return self.mod.summary_str(type(a.arg))(a.arg)
diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index 4cbfc7b..153212c 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -1472,9 +1472,6 @@ class InvertFamily(Family):
         # ~(~a.arg) = a.arg
         return a.arg
 
-    def c_get_render(self, a):
-        return a.arg.get_render()
-
     def c_get_brief(self, a):
         n = a.arg.brief
         if (not (n.startswith('(') or n.startswith('<')) and
-- 
2.43.0


From 246c4e0cda4c1910abcdada530f9791a1a278b4b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 75/86] fix: threads that want the same part of a session get
 the same one

Each made its own, the last one was kept, and with ten threads in the same
module the count that stops endless recursion stopped them.
---
 guppy/etc/Glue.py | 78 ++++++++++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 32 deletions(-)

diff --git a/guppy/etc/Glue.py b/guppy/etc/Glue.py
index cb45f34..b45a68e 100644
--- a/guppy/etc/Glue.py
+++ b/guppy/etc/Glue.py
@@ -1,6 +1,11 @@
 import re
 import sys
 import types
+from _thread import RLock
+
+# Held while something is created, so that it is not created twice when
+# threads want it at the same time.
+_lock = RLock()
 
 
 class GlueError(Exception):
@@ -75,7 +80,9 @@ class Owner:
                 NewInterface = Clamp
             else:
                 NewInterface = Interface
-            self.inters[share] = NewInterface(share, self, name)
+            with _lock:
+                if share not in self.inters:
+                    self.inters[share] = NewInterface(share, self, name)
         return self.inters[share]
 
     def pp(self, out=None, short=0):
@@ -226,41 +233,48 @@ class Share:
             owner.log_getattr(cache, name)
 
         if name not in self.data:
-            try:
-                self.recursion += 1
-                try:
-                    if self.ispackage:
-                        try:
-                            x = self.getattr3(inter, name)
-                        except NoSuchAttributeError:
-                            x = self.getattr_package(inter, name)
-                    else:
-                        x = self.getattr3(inter, name)
-                except NoSuchAttributeError:
-                    if name == '__repr__':
-                        return lambda: str(inter)
-                    elif name == '__str__':
-                        return lambda: '<%s interface at %s>' % (inter._name,
-                                                                 hex(id(self)))
-                    else:
-                        x = self.getattr_module(inter, name)
-                wrapattr = self.wrapattr
-                if wrapattr is not None and name not in self.nowrap:
-                    assert not self.wrapping
-                    try:
-                        self.wrapping = 1
-                        x = wrapattr(inter, x, name)
-                    finally:
-                        self.wrapping = 0
-                self.data[name] = x
-            finally:
-                self.recursion -= 1
-
-        x = self.data[name]
+            with _lock:
+                x = self.create(inter, name)
+        else:
+            x = self.data[name]
         if isinstance(x, Share):
             x = owner.makeInterface(cache, x, name)
         return x
 
+    def create(self, inter, name):
+        if name in self.data:
+            return self.data[name]
+        try:
+            self.recursion += 1
+            try:
+                if self.ispackage:
+                    try:
+                        x = self.getattr3(inter, name)
+                    except NoSuchAttributeError:
+                        x = self.getattr_package(inter, name)
+                else:
+                    x = self.getattr3(inter, name)
+            except NoSuchAttributeError:
+                if name == '__repr__':
+                    return lambda: str(inter)
+                elif name == '__str__':
+                    return lambda: '<%s interface at %s>' % (inter._name,
+                                                             hex(id(self)))
+                else:
+                    x = self.getattr_module(inter, name)
+            wrapattr = self.wrapattr
+            if wrapattr is not None and name not in self.nowrap:
+                assert not self.wrapping
+                try:
+                    self.wrapping = 1
+                    x = wrapattr(inter, x, name)
+                finally:
+                    self.wrapping = 0
+            self.data[name] = x
+            return x
+        finally:
+            self.recursion -= 1
+
     def getattr_module(self, inter, name):
         try:
             return getattr(self.module, name)
-- 
2.43.0


From 5532686cbda9f9dfbff74a9e94d4da7b95cdf29c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 76/86] fix: a document run does not write a file twice, losing
 its backup

---
 guppy/gsl/Main.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/guppy/gsl/Main.py b/guppy/gsl/Main.py
index 4eab607..c253f64 100644
--- a/guppy/gsl/Main.py
+++ b/guppy/gsl/Main.py
@@ -11,6 +11,16 @@ class SpecEnv:
         self.num_errors = 0
         self.num_warnings = 0
 
+    def check_file_names(self, filers):
+        # Writing a file twice would also overwrite its backup.
+        names = {}
+        for f in filers:
+            for name in f.writefile_names:
+                if name in names:
+                    self.error('Duplicate file name: %r' % name,
+                               exception=None)
+                names[name] = f
+
     def errmsg_context(self, context):
         linetext = ''
         filename = '<unknown file>'
@@ -193,14 +203,15 @@ class SpecEnv:
                 print('Linking')
                 self.link_documents(documents)
             if not self.num_errors or process_despite_errors:
-                filers = self.get_filers(documents)
+                filers = [self.mod.Filer.filer(filer)
+                          for filer in self.get_filers(documents)]
+                self.check_file_names(filers)
         except TooManyErrors:
             giving_up = ' giving up --'
         else:
             giving_up = ''
         if not self.num_errors:
-            for filer in filers:
-                f = self.mod.Filer.filer(filer)
+            for f in filers:
                 print('Writing: ', ', '.join(list(f.writefile_names)))
                 f.write()
         if self.num_warnings:
-- 
2.43.0


From fc70635ef1193f6cad09b1ee185cc6a391f0dd62 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 77/86] fix: files that cannot be read are backed up too

---
 guppy/gsl/Filer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/gsl/Filer.py b/guppy/gsl/Filer.py
index 954ffcc..9c8a12c 100644
--- a/guppy/gsl/Filer.py
+++ b/guppy/gsl/Filer.py
@@ -74,7 +74,7 @@ class WriteFile:
         IO = self.mod.IO
         if self.mod.backup_suffix:
             backup_name = self.file_name + self.mod.backup_suffix
-            if IO.access(self.file_name, IO.R_OK | IO.W_OK):
+            if IO.access(self.file_name, IO.W_OK):
                 IO.rename(self.file_name, backup_name)
 
         IO.write_file(self.file_name, self.data)
-- 
2.43.0


From 781fd99cd34c9db96b8189bb81f4bb1e78c1d9b2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 78/86] fix: types and dicts there is no memory for are not
 taken for hidden ones

---
 src/heapy/hv.c            | 89 +++++++++++++++++++++++++++++++--------
 src/heapy/hv_cli_dictof.c |  4 ++
 2 files changed, 76 insertions(+), 17 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index d3f826d..0b1b178 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -93,6 +93,7 @@ PyDoc_STRVAR(hv_doc,
 
 static PyObject *hv_heap(NyHeapViewObject *self, PyObject *args, PyObject *kwds);
 
+static ExtraType xt_error;
 static ExtraType *hv_new_extra_type(NyHeapViewObject *hv, PyTypeObject *type);
 static ExtraType *hv_extra_type(NyHeapViewObject *hv, PyTypeObject *type);
 
@@ -189,6 +190,18 @@ hv_gc_clear(NyHeapViewObject *hv)
     return 0;
 }
 
+/* When the dict of such an object can not be had, there was no memory to
+   make it, though there is no exception. */
+static int
+hv_has_managed_dict(PyObject *obj)
+{
+#if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 11
+    return !!(Py_TYPE(obj)->tp_flags & Py_TPFLAGS_MANAGED_DICT);
+#else
+    return 0;
+#endif
+}
+
 static size_t
 hv_default_size(PyObject *obj)
 {
@@ -260,6 +273,9 @@ owndict_relate(NyHeapRelate *r)
         if (dict_relate_kv(r, *dictptr, NYHR_HASATTR, NYHR_ATTRIBUTE)) {
             return 1;
         }
+    } else if (hv_has_managed_dict(r->src)) {
+        PyErr_NoMemory();
+        return -1;
     }
     return 0;
 }
@@ -290,6 +306,8 @@ xt_inherited_relate(struct ExtraType *xt, NyHeapRelate *r)
         return 1;
     /* Not that when xt was made: the base may have been changed and died */
     base = hv_extra_type((void *)xt->xt_hv, xt->xt_type->tp_base);
+    if (base == &xt_error)
+        return -1;
     return base->xt_relate(base, r);
 }
 
@@ -547,7 +565,10 @@ xt_traverse(ExtraType *xt, PyObject *obj, visitproc visit, void *arg)
         // and other references. To keep our results stable we have to
         // materialize this managed dict, which allocates a lot of memory
         // and will add additional overhead.
-        _PyObject_GetDictPtr(obj);
+        if (!_PyObject_GetDictPtr(obj)) {
+            PyErr_NoMemory();
+            return -1;
+        }
 #if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 13
         if (Py_TYPE(obj)->tp_flags & Py_TPFLAGS_INLINE_VALUES) {
             // Additionally, in 3.13, PyObject_VisitManagedDict skips traversing
@@ -612,6 +633,8 @@ hv_is_obj_hidden(NyHeapViewObject *hv, PyObject *obj)
 {
     PyTypeObject *type = Py_TYPE(obj);
     ExtraType *xt = hv_extra_type(hv, type);
+    if (xt == &xt_error)
+        return -1;
     if (xt->xt_trav_code == XT_HE) {
         Py_ssize_t offs = xt->xt_he_offs;
         PyObject **phe = (PyObject **)((char *)obj + offs);
@@ -625,6 +648,10 @@ hv_is_obj_hidden(NyHeapViewObject *hv, PyObject *obj)
         return 1;
     } else {
         PyObject **dp = _PyObject_GetDictPtr(obj);
+        if (!dp && hv_has_managed_dict(obj)) {
+            PyErr_NoMemory();
+            return -1;
+        }
         if (dp && *dp && PyDict_GetItem(*dp, _hiding_tag__name) == hv->_hiding_tag_) {
             return 1;
         }
@@ -636,11 +663,10 @@ hv_is_obj_hidden(NyHeapViewObject *hv, PyObject *obj)
 static int
 hv_cms_rec(PyObject *obj, CMSTravArg *ta)
 {
-    if (hv_is_obj_hidden(ta->hv, obj)) {
-        if (PyList_Append(ta->rm, obj) == -1)
-            return -1;
-    }
-    return 0;
+    int r = hv_is_obj_hidden(ta->hv, obj);
+    if (r > 0)
+        r = PyList_Append(ta->rm, obj);
+    return r;
 }
 
 
@@ -846,7 +872,10 @@ typedef struct {
 static int
 iter_rec(PyObject *obj, IterTravArg *ta) {
     int r;
-    if (hv_is_obj_hidden(ta->hv, obj) && Py_TYPE(obj) != &NyRootState_Type)
+    r = hv_is_obj_hidden(ta->hv, obj);
+    if (r < 0)
+        return r;
+    if (r && Py_TYPE(obj) != &NyRootState_Type)
         return 0;
     /* An object may be visited more than once even if it has a single
        reference, since a frame and its generator both visit the same one. */
@@ -912,7 +941,10 @@ typedef struct {
 static int
 hv_heap_rec(PyObject *obj, HeapTravArg *ta) {
     int r;
-    if (hv_is_obj_hidden(ta->hv, obj) && Py_TYPE(obj) != &NyRootState_Type)
+    r = hv_is_obj_hidden(ta->hv, obj);
+    if (r < 0)
+        return r;
+    if (r && Py_TYPE(obj) != &NyRootState_Type)
         return 0;
     r = NyNodeSet_setobj(ta->visited, obj);
     if (r)
@@ -1077,7 +1109,10 @@ static int
 hv_ra_rec(PyObject *obj, RATravArg *ta)
 {
     int r;
-    if (hv_is_obj_hidden(ta->hv, obj) && Py_TYPE(obj) != &NyRootState_Type)
+    r = hv_is_obj_hidden(ta->hv, obj);
+    if (r < 0)
+        return r;
+    if (r && Py_TYPE(obj) != &NyRootState_Type)
         return 0;
     r = NyNodeSet_hasobj(ta->avoid, obj);
     if (r)
@@ -1135,7 +1170,10 @@ static int
 hv_ra_rec_e(PyObject *obj, RATravArg *ta)
 {
     int r;
-    if (hv_is_obj_hidden(ta->hv, obj) && Py_TYPE(obj) != &NyRootState_Type)
+    r = hv_is_obj_hidden(ta->hv, obj);
+    if (r < 0)
+        return r;
+    if (r && Py_TYPE(obj) != &NyRootState_Type)
         return 0;
     r = NyNodeSet_setobj(ta->visited, obj);
     if (r)
@@ -1430,6 +1468,7 @@ hv_shpath_inner(PyObject *v, ShPathTravArg *ta)
 static int
 hv_shpath_outer(PyObject *u, ShPathTravArg *ta)
 {
+    int r;
     if ((void *) u == ta->hv ||
         (void *) u == ta->S ||
         (void *) u == ta->V ||
@@ -1437,8 +1476,10 @@ hv_shpath_outer(PyObject *u, ShPathTravArg *ta)
         (void *) u == ta->edgestoavoid ||
         (void *) u == ta->U)
         return 0;
-    if (hv_is_obj_hidden(ta->hv, u) && u != ta->hv->root &&
-        Py_TYPE(u) != &NyRootState_Type)
+    r = hv_is_obj_hidden(ta->hv, u);
+    if (r < 0)
+        return r;
+    if (r && u != ta->hv->root && Py_TYPE(u) != &NyRootState_Type)
         return 0;
     ta->u = u;
     return hv_std_traverse(ta->hv, u, (visitproc)hv_shpath_inner, ta);
@@ -1569,9 +1610,13 @@ typedef struct {
 
 static int
 rg_rec(PyObject *obj, RetaTravArg *ta) {
+    int r;
     if (obj == (PyObject *)ta->rg || obj == ta->hv->root)
         return 0;
-    if (hv_is_obj_hidden(ta->hv, obj)) {
+    r = hv_is_obj_hidden(ta->hv, obj);
+    if (r < 0)
+        return r;
+    if (r) {
         int is_target = NyNodeSet_hasobj(ta->targetset, obj);
         if (is_target <= 0)
             return is_target;
@@ -1659,6 +1704,9 @@ err_inner_inner:
             int is_target = -1;
             ExtraType *xt = hv_extra_type(ta.hv, Py_TYPE(obj));
 
+            if (xt == &xt_error)
+                goto err_inner;
+
             if (xt->xt_trav_code == XT_NO) {
                 is_target = ta.targetset ? NyNodeSet_hasobj(ta.targetset, obj) :
                                            obj != ta.hv->root;
@@ -1700,8 +1748,14 @@ err_inner_inner:
             if (PyList_Append(ta.to_visit, ta.sentinel) == -1)
                 goto err_inner;
 
-            if (!no_recurse && (obj == ta.hv->root ||
-                                !hv_is_obj_hidden(ta.hv, obj)))
+            int recurse = !no_recurse;
+            if (recurse && obj != ta.hv->root) {
+                int hidden = hv_is_obj_hidden(ta.hv, obj);
+                if (hidden == -1)
+                    goto err_inner;
+                recurse = !hidden;
+            }
+            if (recurse)
                 if (xt_traverse(xt, obj, (visitproc)rg_rec, &ta) == -1)
                     goto err_inner;
         }
@@ -1751,8 +1805,9 @@ int dummy;
 static int
 urco_traverse(PyObject *obj, URCOTravArg *ta)
 {
-    if (hv_is_obj_hidden(ta->hv, obj))
-        return 0;
+    int r = hv_is_obj_hidden(ta->hv, obj);
+    if (r)
+        return r < 0 ? r : 0;
     if (NyNodeGraph_AddEdge(ta->rg, obj, ta->retainer) == -1)
         return -1;
     ta->num++;
diff --git a/src/heapy/hv_cli_dictof.c b/src/heapy/hv_cli_dictof.c
index ffe1e70..26f6cf4 100644
--- a/src/heapy/hv_cli_dictof.c
+++ b/src/heapy/hv_cli_dictof.c
@@ -99,6 +99,10 @@ hv_cli_dictof_update(NyHeapViewObject *hv, NyNodeGraphObject *rg)
         for (i = 0; i < len; i++) {
             PyObject *obj = PyList_GET_ITEM(objects, i);
             dp = _PyObject_GetDictPtr(obj);
+            if (!dp && hv_has_managed_dict(obj)) {
+                PyErr_NoMemory();
+                goto err;
+            }
             if (dp && *dp) {
                 if (NyNodeGraph_AddEdge(ta.rg, *dp, obj) == -1)
                     goto err;
-- 
2.43.0


From 6c045a9bf4ed7890ea9a0ac192d872cacb2ede1c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 79/86] fix: heap views release what they have when memory is
 exhausted

---
 src/heapy/hv.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 0b1b178..52944eb 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -109,8 +109,10 @@ hv_PyList_Pop(PyObject *list)
         PyObject *r = PyList_GetItem(list, size - 1);
         Py_XINCREF(r);
         if (r)
-            if (PyList_SetSlice(list, size - 1, size, 0) < 0)
+            if (PyList_SetSlice(list, size - 1, size, 0) < 0) {
+                Py_DECREF(r);
                 return 0;
+            }
 
         return r;
     } else {
@@ -428,7 +430,6 @@ hv_new_xt_for_type_at_xtp(NyHeapViewObject *hv, PyTypeObject *type, ExtraType **
         return 0;
     }
     memset(xt, 0, sizeof(ExtraType));
-    *xtp = xt;
     xt->xt_hv = (void *)hv;
     xt->xt_type = type;
     xt->xt_weak_type = PyWeakref_NewRef((PyObject *)type, hv->weak_type_callback);
@@ -436,6 +437,7 @@ hv_new_xt_for_type_at_xtp(NyHeapViewObject *hv, PyTypeObject *type, ExtraType **
         PyMem_Del(xt);
         return 0;
     }
+    *xtp = xt;
     return xt;
 }
 
@@ -771,8 +773,10 @@ NyHeapView_SubTypeNew(PyTypeObject *type, PyObject *root, PyTupleObject *heapdef
         goto err;
 
     hv->xt_table = PyMem_New(ExtraType *, hv->xt_size);
-    if (!hv->xt_table)
+    if (!hv->xt_table) {
+        PyErr_NoMemory();
         goto err;
+    }
     for (i = 0; i < hv->xt_size; i++)
         hv->xt_table[i] = 0;
 
@@ -1668,8 +1672,11 @@ hv_update_referrers(NyHeapViewObject *self, PyObject *args)
             // Recurse out
             PyObject *last_obj = hv_PyList_Pop(ta.trace_stack);
             PyObject *last_res = hv_PyList_Pop(ta.trace_res);
-            if (!(last_obj && last_res))
+            if (!(last_obj && last_res)) {
+                Py_XDECREF(last_obj);
+                Py_XDECREF(last_res);
                 goto err_inner;
+            }
             if (NyNodeSet_clrobj(ta.trace_set, last_obj) == -1)
                 goto err_inner_inner;
             if (last_res == Py_True) {
@@ -1716,7 +1723,10 @@ err_inner_inner:
                     goto err_inner;
             }
 
-            if (NyNodeSet_hasobj(ta.markset, obj))
+            int marked = NyNodeSet_hasobj(ta.markset, obj);
+            if (marked == -1)
+                goto err_inner;
+            if (marked)
                 goto next;
 
             int in_trace = NyNodeSet_setobj(ta.trace_set, obj);
-- 
2.43.0


From c7269527f91648466e841f899780c26e2510b05e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 80/86] fix: owners of dicts are not partly known when memory
 is exhausted

---
 src/heapy/hv_cli_dictof.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/heapy/hv_cli_dictof.c b/src/heapy/hv_cli_dictof.c
index 26f6cf4..a860634 100644
--- a/src/heapy/hv_cli_dictof.c
+++ b/src/heapy/hv_cli_dictof.c
@@ -134,6 +134,9 @@ hv_cli_dictof_update(NyHeapViewObject *hv, NyNodeGraphObject *rg)
     }
     result = 0;
 err:
+    /* A part of the graph would tell that there are dicts without owner */
+    if (result == -1)
+        NyNodeGraph_Clear(rg);
     Py_XDECREF(ta.dictsowned);
     Py_XDECREF(lists[0]);
     Py_XDECREF(lists[1]);
-- 
2.43.0


From 2e79141e55099d3083dfa6aebccb0b1ae406e86e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 81/86] fix: classifiers do not release kinds twice when memory
 is exhausted

---
 src/heapy/classifier.c    | 6 ++++--
 src/heapy/hv_cli_findex.c | 2 +-
 src/heapy/hv_cli_rcs.c    | 1 +
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/heapy/classifier.c b/src/heapy/classifier.c
index 0125d96..4cca15d 100644
--- a/src/heapy/classifier.c
+++ b/src/heapy/classifier.c
@@ -105,6 +105,7 @@ cli_partition_iter(PyObject *obj, PATravArg *ta)
         if (!sp)
             goto Err;
         if (PyObject_SetItem(ta->map, kind, sp) == -1) {
+            Py_DECREF(sp);
             goto Err;
         };
         Py_DECREF(sp);
@@ -114,8 +115,7 @@ cli_partition_iter(PyObject *obj, PATravArg *ta)
     Py_DECREF(kind);
     return 0;
 Err:
-    Py_XDECREF(sp);
-    Py_XDECREF(kind);
+    Py_DECREF(kind);
     return -1;
 }
 
@@ -249,6 +249,8 @@ cli_cmp_as_int(PyObject *cmp)
         return -1;
     }
     s = PyUnicode_AsUTF8(cmp);
+    if (!s)
+        return -1;
     for (i = 0; (c = cmp_strings[i]); i++) {
         if (strcmp(c, s) == 0)
             return i;
diff --git a/src/heapy/hv_cli_findex.c b/src/heapy/hv_cli_findex.c
index ea78882..5e78002 100644
--- a/src/heapy/hv_cli_findex.c
+++ b/src/heapy/hv_cli_findex.c
@@ -124,7 +124,7 @@ hv_cli_findex(NyHeapViewObject *hv, PyObject *args)
     Py_INCREF(tmp.memo);
     s->kinds = PyTuple_New(numalts);
     s->cmps = PyTuple_New(numalts);
-    if (!s->kinds)
+    if (!s->kinds || !s->cmps)
         goto Err;
     for (i = 0; i < numalts; i++) {
         PyObject *ckc = PyTuple_GET_ITEM(tmp.alts, i);
diff --git a/src/heapy/hv_cli_rcs.c b/src/heapy/hv_cli_rcs.c
index 133ae99..61c3941 100644
--- a/src/heapy/hv_cli_rcs.c
+++ b/src/heapy/hv_cli_rcs.c
@@ -119,6 +119,7 @@ hv_cli_rcs_classify(RetclasetObject * self, PyObject *obj)
         if (NyNodeSet_setobj(Ri, kind) == -1)
             goto Err;
         Py_DECREF(kind);
+        kind = 0;
     }
     if (NyNodeSet_be_immutable(&Ri) == -1)
       goto Err;
-- 
2.43.0


From eb60f8d987e6ab90a7edcf10b03424d4a5e8b330 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 82/86] fix: classifiers do not take an error for a kind not
 seen before

---
 src/heapy/classifier.c      | 4 +++-
 src/heapy/hv_cli_and.c      | 2 +-
 src/heapy/hv_cli_findex.c   | 2 +-
 src/heapy/hv_cli_indisize.c | 4 +++-
 src/heapy/hv_cli_prod.c     | 2 +-
 src/heapy/hv_cli_rcs.c      | 2 +-
 src/heapy/hv_cli_rel.c      | 8 +++++---
 7 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/heapy/classifier.c b/src/heapy/classifier.c
index 4cca15d..c96dfae 100644
--- a/src/heapy/classifier.c
+++ b/src/heapy/classifier.c
@@ -99,8 +99,10 @@ cli_partition_iter(PyObject *obj, PATravArg *ta)
     if (!kind)
         return -1;
 
-    sp = PyDict_GetItem(ta->map, kind);
+    sp = PyDict_GetItemWithError(ta->map, kind);
     if (!sp) {
+        if (PyErr_Occurred())
+            goto Err;
         sp = PyList_New(0);
         if (!sp)
             goto Err;
diff --git a/src/heapy/hv_cli_and.c b/src/heapy/hv_cli_and.c
index fc43cf4..2298c72 100644
--- a/src/heapy/hv_cli_and.c
+++ b/src/heapy/hv_cli_and.c
@@ -39,7 +39,7 @@ NyNodeTuple_New(Py_ssize_t size)
 static PyObject *
 hv_cli_and_fast_memoized_kind(CliAndObject * self, PyObject *kind)
 {
-    PyObject *result = PyDict_GetItem(self->memo, kind);
+    PyObject *result = PyDict_GetItemWithError(self->memo, kind);
     if (!result) {
         if (PyErr_Occurred())
             goto Err;
diff --git a/src/heapy/hv_cli_findex.c b/src/heapy/hv_cli_findex.c
index 5e78002..1428364 100644
--- a/src/heapy/hv_cli_findex.c
+++ b/src/heapy/hv_cli_findex.c
@@ -20,7 +20,7 @@ typedef struct {
 static PyObject *
 hv_cli_findex_memoized_kind(FindexObject * self, PyObject *kind)
 {
-    PyObject *result = PyDict_GetItem(self->memo, kind);
+    PyObject *result = PyDict_GetItemWithError(self->memo, kind);
     if (!result) {
         if (PyErr_Occurred())
             goto Err;
diff --git a/src/heapy/hv_cli_indisize.c b/src/heapy/hv_cli_indisize.c
index 1c3e425..6096f90 100644
--- a/src/heapy/hv_cli_indisize.c
+++ b/src/heapy/hv_cli_indisize.c
@@ -11,8 +11,10 @@ typedef struct {
 static PyObject *
 hv_cli_indisize_memoized_kind(IndisizeObject *self, PyObject *size)
 {
-    PyObject *memoedsize = PyDict_GetItem(self->memo, size);
+    PyObject *memoedsize = PyDict_GetItemWithError(self->memo, size);
     if (!memoedsize) {
+        if (PyErr_Occurred())
+            return 0;
         if (PyDict_SetItem(self->memo, size, size) == -1) {
             return 0;
         }
diff --git a/src/heapy/hv_cli_prod.c b/src/heapy/hv_cli_prod.c
index 01a8f57..a19d406 100644
--- a/src/heapy/hv_cli_prod.c
+++ b/src/heapy/hv_cli_prod.c
@@ -76,7 +76,7 @@ typedef struct {
 static PyObject *
 hv_cli_prod_memoized_kind(ProdObject * self, PyObject *kind)
 {
-    PyObject *result = PyDict_GetItem(self->memo, kind);
+    PyObject *result = PyDict_GetItemWithError(self->memo, kind);
     if (!result) {
         if (PyErr_Occurred())
             goto Err;
diff --git a/src/heapy/hv_cli_rcs.c b/src/heapy/hv_cli_rcs.c
index 61c3941..145a0a5 100644
--- a/src/heapy/hv_cli_rcs.c
+++ b/src/heapy/hv_cli_rcs.c
@@ -32,7 +32,7 @@ typedef struct {
 static PyObject *
 hv_cli_rcs_fast_memoized_kind(RetclasetObject * self, PyObject *kind)
 {
-    PyObject *result = PyDict_GetItem(self->memo, kind);
+    PyObject *result = PyDict_GetItemWithError(self->memo, kind);
     if (!result) {
         if (PyErr_Occurred())
             goto Err;
diff --git a/src/heapy/hv_cli_rel.c b/src/heapy/hv_cli_rel.c
index 13630cc..8249a9e 100644
--- a/src/heapy/hv_cli_rel.c
+++ b/src/heapy/hv_cli_rel.c
@@ -191,7 +191,7 @@ inrel_visit_memoize_relation(PyObject *obj, MemoRelArg *arg)
                Py_TYPE(obj)->tp_name);
         return -1;
     }
-    mrel = PyDict_GetItem(arg->memorel, obj);
+    mrel = PyDict_GetItemWithError(arg->memorel, obj);
     if (!mrel) {
         if (PyErr_Occurred())
             return -1;
@@ -208,7 +208,7 @@ static PyObject *
 inrel_fast_memoized_kind(InRelObject * self, PyObject *kind)
      /* When the elements are already memoized */
 {
-    PyObject *result = PyDict_GetItem(self->memokind, kind);
+    PyObject *result = PyDict_GetItemWithError(self->memokind, kind);
     if (!result) {
         if (PyErr_Occurred())
             goto Err;
@@ -270,8 +270,10 @@ hv_cli_inrel_visit(unsigned int kind, PyObject *relator, NyHeapRelate *arg_)
     arg->rel->kind = kind;
     arg->rel->relator = relator;
 
-    rel = PyDict_GetItem(arg->memorel, (PyObject *)arg->rel);
+    rel = PyDict_GetItemWithError(arg->memorel, (PyObject *)arg->rel);
     if (!rel) {
+        if (PyErr_Occurred())
+            goto ret;
         rel = (PyObject *)NyRelation_New(kind, relator);
         if (!rel)
             goto ret;
-- 
2.43.0


From a6e7d156c0275bf46025679bb78c515c7fd004ba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:22 +0000
Subject: [PATCH 83/86] fix: frames and local names there is no memory for are
 an error

---
 src/heapy/stdtypes.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index ca884ec..e34ed93 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -258,6 +258,8 @@ frame_relate(NyHeapRelate *r)
 #if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 11
     // Py 3.11 only holds f_back when FRAME_OWNED_BY_FRAME_OBJECT
     PyFrameObject *next_frame = PyFrame_GetBack(v);
+    if (!next_frame && PyErr_Occurred())
+        return -1;
     if ((PyObject *)next_frame == r->tgt && r->visit(
             NYHR_ATTRIBUTE, PyUnicode_FromString("f_back"), r)) {
         Py_XDECREF(next_frame);
@@ -403,7 +405,7 @@ frame_traverse(NyHeapTraverse *ta) {
     for (i = 0; co && i < co->co_nlocalsplus; i++) {
         _PyLocals_Kind kind = _PyLocals_GetKind(co->co_localspluskinds, i);
         PyObject *name = PyTuple_GET_ITEM(co->co_localsplusnames, i);
-        if (kind & CO_FAST_LOCAL && strcmp(PyUnicode_AsUTF8(name), "_hiding_tag_") == 0) {
+        if (kind & CO_FAST_LOCAL && PyUnicode_CompareWithASCIIString(name, "_hiding_tag_") == 0) {
             if (PyStackRef_AsPyObjectBorrow(iv->localsplus[i]) == ta->_hiding_tag_)
                 return 0;
             else
@@ -415,7 +417,7 @@ frame_traverse(NyHeapTraverse *ta) {
     if (PyTuple_Check(co->co_varnames)) {
         for (i = 0; i < nlocals; i++) {
             PyObject *name = PyTuple_GET_ITEM(co->co_varnames, i);
-            if (strcmp(PyUnicode_AsUTF8(name), "_hiding_tag_") == 0) {
+            if (PyUnicode_CompareWithASCIIString(name, "_hiding_tag_") == 0) {
                 if (v->f_localsplus[i] == ta->_hiding_tag_)
                     return 0;
                 else
@@ -429,6 +431,8 @@ frame_traverse(NyHeapTraverse *ta) {
     /* _PyFrame_Traverse is not exposed and CPython's frame_traverse only
       calls it when FRAME_OWNED_BY_FRAME_OBJECT :( */
     PyFrameObject *next_frame = PyFrame_GetBack(v);
+    if (!next_frame && PyErr_Occurred())
+        return -1;
     int err = next_frame ? visit((PyObject *)next_frame, arg) : 0;
     Py_XDECREF(next_frame);
     if (err)
-- 
2.43.0


From a39b095b23a936cd731921fdce14ddd9f77cc93c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 84/86] fix: the root state does not ignore its errors, and
 threads may have no frame

---
 src/heapy/rootstate.c | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/heapy/rootstate.c b/src/heapy/rootstate.c
index 238f1ba..1ba3375 100644
--- a/src/heapy/rootstate.c
+++ b/src/heapy/rootstate.c
@@ -263,24 +263,24 @@ static struct PyMemberDef ts_members[] = {
 
 #define ISATTR_DIR(name) do {                           \
     attr = PyUnicode_FromFormat("i%d_%s", isno, #name); \
-    if (attr) {                                         \
-        if (PyList_Append(list, attr)) {                \
-            Py_DECREF(attr);                            \
-            goto Err;                                   \
-        }                                               \
+    if (!attr)                                          \
+        goto Err;                                       \
+    if (PyList_Append(list, attr)) {                    \
         Py_DECREF(attr);                                \
+        goto Err;                                       \
     }                                                   \
+    Py_DECREF(attr);                                    \
 } while (0)
 
 #define TSATTR_DIR(name) do {                                               \
     attr = PyUnicode_FromFormat("i%d_t%lu_%s", isno, THREAD_ID(ts), #name); \
-    if (attr) {                                                             \
-        if (PyList_Append(list, attr)) {                                    \
-            Py_DECREF(attr);                                                \
-            goto Err;                                                       \
-        }                                                                   \
+    if (!attr)                                                              \
+        goto Err;                                                           \
+    if (PyList_Append(list, attr)) {                                        \
         Py_DECREF(attr);                                                    \
+        goto Err;                                                           \
     }                                                                       \
+    Py_DECREF(attr);                                                        \
 } while (0)
 
 static int
@@ -368,6 +368,8 @@ rootstate_relate(NyHeapRelate *r)
                     Py_DECREF(frame);
                     frame = next_frame;
                 }
+                if (PyErr_Occurred())
+                    return -1;
 #else
                 for (frame = (PyFrameObject *)ts->frame; frame; frame = frame->f_back) {
                     numframes++;
@@ -493,8 +495,10 @@ rootstate_traverse(NyHeapTraverse *ta)
             } else if (!hv->limitframe) {
 #if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 11
                 PyFrameObject *frame = PyThreadState_GetFrame(ts);
-                Py_VISIT(frame);
+                int err = frame ? visit((PyObject *)frame, arg) : 0;
                 Py_XDECREF(frame);
+                if (err)
+                    return err;
 #else
                 Py_VISIT(ts->frame);
 #endif
@@ -599,6 +603,11 @@ rootstate_getattr(PyObject *obj, PyObject *name)
                                     Py_DECREF(frame);
                                     frame = next_frame;
                                 }
+                                if (PyErr_Occurred()) {
+                                    Py_XDECREF(current_frame);
+                                    Py_DECREF(name);
+                                    return 0;
+                                }
                                 for (frame = (PyFrameObject *)Py_XNewRef(current_frame); frame;) {
                                     PyFrameObject *next_frame = PyFrame_GetBack(frame);
                                     numframes--;
@@ -610,7 +619,7 @@ rootstate_getattr(PyObject *obj, PyObject *name)
                                     Py_DECREF(frame);
                                     frame = next_frame;
                                 }
-                                Py_DECREF(current_frame);
+                                Py_XDECREF(current_frame);
 #else
                                 for (frame = ts->frame; frame; frame = frame->f_back) {
                                     numframes++;
@@ -684,10 +693,11 @@ rootstate_getattr(PyObject *obj, PyObject *name)
                         Py_DECREF(name);
                         return 0;
                     }
-                    PyErr_WarnFormat(PyExc_DeprecationWarning, 1,
+                    PyObject *res = 0;
+                    if (PyErr_WarnFormat(PyExc_DeprecationWarning, 1,
                         "Getting thread state without an interpreter number "
-                        "is deprecated. Use %R instead", fullname);
-                    PyObject *res = rootstate_getattr(obj, fullname);
+                        "is deprecated. Use %R instead", fullname) == 0)
+                        res = rootstate_getattr(obj, fullname);
                     Py_DECREF(fullname);
                     Py_DECREF(name);
                     return res;
@@ -784,6 +794,8 @@ rootstate_dir(PyObject *self, PyObject *args)
                 Py_DECREF(frame);
                 frame = next_frame;
             }
+            if (PyErr_Occurred())
+                goto Err;
 #else
             for (frame = (PyFrameObject *)ts->frame; frame; frame = frame->f_back) {
                 numframes++;
-- 
2.43.0


From 7e585b25615cb6b59e3a58d5ca500baccfb783eb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 85/86] fix: the frame of hp.heap() itself is not in the heap

---
 guppy/heapy/Use.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Use.py b/guppy/heapy/Use.py
index 789fa82..1869774 100644
--- a/guppy/heapy/Use.py
+++ b/guppy/heapy/Use.py
@@ -185,7 +185,9 @@ References
     [2] heapy_Use.html#heapykinds.Use.setref
     [3] heapy_Use.html#heapykinds.Use.Clodo"""
 
-        h = self.View.heap()
+        # The frame of this method is not part of the program: let the
+        # frame that called it be the limit.
+        h = self.View.enter(self.View.heap)
         h |= self.gcobjs
         h -= self.relheap
         return h
-- 
2.43.0


From 67fd5992847e1195c851a7836f1b6bad03b802e2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:30 +0000
Subject: [PATCH 86/86] fix: show the names of frames of other threads in paths
 that are printed

---
 src/heapy/rootstate.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/heapy/rootstate.c b/src/heapy/rootstate.c
index 1ba3375..4324984 100644
--- a/src/heapy/rootstate.c
+++ b/src/heapy/rootstate.c
@@ -353,8 +353,10 @@ rootstate_relate(NyHeapRelate *r)
         ts = is->tstate_head;
 #endif
         for (; ts; ts = ts->next) {
-            if ((ts == bts && r->tgt == hv->limitframe) ||
-                    (!hv->limitframe && isframe)) {
+            /* Frames of other threads are related also when they are not
+               traversed: output is made with a limitframe. */
+            if (isframe && (ts != bts || !hv->limitframe ||
+                            r->tgt == hv->limitframe)) {
                 int frameno = -1;
                 int numframes = 0;
                 PyFrameObject *frame;
-- 
2.43.0

