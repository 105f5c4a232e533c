From f086a36a403dea52c243059467fb333badde6683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:53 +0000
Subject: [PATCH 01/23] fix: accumulate the sum of squares when the tail
 statistics are recomputed

peaks_update_stats assigned e2 instead of accumulating it, so the variance
(and the method-of-moments fit) was wrong after any eviction of an extreme.
---
 src/peaks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peaks.c b/src/peaks.c
index fcaaadc..97010d7 100644
--- a/src/peaks.c
+++ b/src/peaks.c
@@ -42,7 +42,7 @@ static unsigned long peaks_update_stats(struct Peaks *peaks) {
         // value = *iterator;
         double value = peaks->container.data[i];
         peaks->e += value;
-        peaks->e2 = value * value;
+        peaks->e2 += value * value;
         if (is_nan(peaks->min) || (value < peaks->min)) {
             peaks->min = value;
         }
-- 
2.43.0


From ed7f89a76be310eb8b835107d0ae49cceea9aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:53 +0000
Subject: [PATCH 02/23] fix: reject NaN level and q in spot_init

---
 src/spot.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spot.c b/src/spot.c
index 7dc4ed7..4a19478 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -23,10 +23,10 @@ static const char *license = LICENSE;
 
 int spot_init(struct Spot *spot, double q, int low, int discard_anomalies,
               double level, unsigned long max_excess) {
-    if ((level < 0.) || (level >= 1.)) {
+    if (!((level >= 0.) && (level < 1.))) {
         return -ERR_LEVEL_OUT_OF_BOUNDS;
     }
-    if ((q >= (1. - level)) || (q <= 0.0)) {
+    if (!((q > 0.0) && (q < (1. - level)))) {
         return -ERR_Q_OUT_OF_BOUNDS;
     }
     spot->q = q;
-- 
2.43.0


From f528275cb6dece11ba170f312da937ef42b72b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:53 +0000
Subject: [PATCH 03/23] fix: refuse a null or overflowing tail capacity

A zero capacity (or one whose size in bytes wraps) was accepted and the
first excesses were then written out of the allocated block. Pushing into a
container without storage is now a no-op.
---
 src/ubend.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ubend.c b/src/ubend.c
index 9a58175..ae4c597 100644
--- a/src/ubend.c
+++ b/src/ubend.c
@@ -14,7 +14,13 @@ int ubend_init(struct Ubend *ubend, unsigned long capacity) {
     ubend->filled = 0;
     ubend->capacity = capacity;
     ubend->last_erased_data = _NAN;
-    ubend->data = (double *)xmalloc(capacity * __SIZEOF_DOUBLE__);
+    ubend->data = 0x0;
+    // an empty container is useless (and unsafe to push into) and the size
+    // of the buffer must not overflow
+    if ((capacity > 0) &&
+        (capacity <= (unsigned long)(-1) / __SIZEOF_DOUBLE__)) {
+        ubend->data = (double *)xmalloc(capacity * __SIZEOF_DOUBLE__);
+    }
     if (ubend->data) {
         return 0;
     }
@@ -39,6 +45,10 @@ unsigned long ubend_size(struct Ubend const *ubend) {
 }
 
 double ubend_push(struct Ubend *ubend, double x) {
+    // there is no storage (not initialized or already freed)
+    if (ubend->capacity == 0) {
+        return _NAN;
+    }
     // if the container has already been filled
     // we must keep in memory the data we will
     // erase
-- 
2.43.0


From 3cd8625fcf9d7d7b53bec90dc7eb59cf1805b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:53 +0000
Subject: [PATCH 04/23] fix: do not free the tail buffer twice when spot_free
 is called twice

---
 src/ubend.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ubend.c b/src/ubend.c
index ae4c597..ed6a094 100644
--- a/src/ubend.c
+++ b/src/ubend.c
@@ -34,6 +34,7 @@ void ubend_free(struct Ubend *ubend) {
     ubend->last_erased_data = _NAN;
     if (ubend->data) {
         xfree(ubend->data);
+        ubend->data = 0x0;
     }
 }
 
-- 
2.43.0


From 5ba037df4e0751a78935a2f2d9ad2455efa73521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:53 +0000
Subject: [PATCH 05/23] fix: do not write before the buffer when its size is
 zero

---
 src/spot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spot.c b/src/spot.c
index 4a19478..3c1132f 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -172,7 +172,7 @@ void set_allocators(malloc_fn m, free_fn f) { internal_set_allocators(m, f); }
  * @return char* pointer to the output buffer
  */
 static char *strncpy(char *dst, const char *src, unsigned long size) {
-    if (dst) {
+    if (dst && (size > 0)) {
         unsigned long i = 0;
         for (; (i < size) && (src[i] != '\0'); i++) {
             dst[i] = src[i];
-- 
2.43.0


From 3c0932747f2306cf2d5b1c69a113a8217b4b7c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:53 +0000
Subject: [PATCH 06/23] fix: return the right limits for exp of large values
 and log of infinity

xexp converted a possibly huge double to unsigned int (undefined) and
returned 0, 1 or NaN for large arguments; xlog(inf) returned NaN.
---
 src/xmath.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xmath.c b/src/xmath.c
index 81dfcb8..855a656 100644
--- a/src/xmath.c
+++ b/src/xmath.c
@@ -325,6 +325,10 @@ double xexp(double x) {
     if (x < 0) {
         return 1.0 / xexp(-x);
     }
+    // overflow (the exponent below must fit into an int)
+    if (x > 710.0) {
+        return _INFINITY;
+    }
     if (x > LOG2) {
         unsigned int k = x / LOG2;
         double r = x - LOG2 * (double)k;
@@ -344,6 +348,9 @@ double xlog(double x) {
     if (x == 0) {
         return -_INFINITY;
     }
+    if (x == _INFINITY) {
+        return _INFINITY;
+    }
     // double_cast casted = {.d = x};
     // if (casted.bits.exponent == 1022 || casted.bits.exponent == 1023) {
     //     // 1/2 < x < 1
-- 
2.43.0


From 7bb5ef1c4b742451dfc4b451fbde28fc070b79d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:53 +0000
Subject: [PATCH 07/23] fix: probability is zero beyond the end point of a
 bounded tail

It was NaN (or infinite at the end point).
---
 src/tail.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tail.c b/src/tail.c
index 6fcf574..b16dc09 100644
--- a/src/tail.c
+++ b/src/tail.c
@@ -39,6 +39,10 @@ double tail_probability(struct Tail const *tail, double s, double d) {
         return s * xexp(-d / tail->sigma);
     } else {
         double r = d * (tail->gamma / tail->sigma);
+        // beyond the end point of a bounded tail
+        if ((tail->gamma < 0.0) && (1.0 + r <= 0.0)) {
+            return 0.0;
+        }
         return s * xpow(1.0 + r, -1.0 / tail->gamma);
     }
 }
-- 
2.43.0


From ef9e7df47606cb8036f9987a5875118a66c46924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:28 +0000
Subject: [PATCH 08/23] fix: no quantile estimate (NaN) with fewer than five
 values

p2_quantile returned 0, so spot_fit calibrated a detector with an excess
threshold unrelated to the data instead of reporting an error.
---
 src/p2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/p2.c b/src/p2.c
index 88e4360..4575efe 100644
--- a/src/p2.c
+++ b/src/p2.c
@@ -116,7 +116,8 @@ static double quantile(struct P2 *p2, double const *x, unsigned long size) {
     double qp;
 
     if (size < 5) {
-        return 0.0;
+        // not enough data to estimate a quantile
+        return 0.0 / 0.0;
     }
     // init q with the 5 first values
     for (i = 0; i < 5; i++) {
-- 
2.43.0


From ec2d271dbd3a3a83e30c99da2e0edfac7d92344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:28 +0000
Subject: [PATCH 09/23] fix: root search fails when the function is NaN at an
 end of the interval

It reported the end point as a root.
---
 src/brent.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/brent.c b/src/brent.c
index 5506ec8..d195350 100644
--- a/src/brent.c
+++ b/src/brent.c
@@ -45,7 +45,8 @@ double brent(int *found, double x1, double x2, real_function func, void *extra,
     // double tol1 = 0.0;
     // double xm = 0.0;
 
-    if ((fa > 0.0 && fb > 0.0) || (fa < 0.0 && fb < 0.0)) {
+    // the ends must bracket a root (it also discards NaN values)
+    if (!((fa <= 0.0 && fb >= 0.0) || (fa >= 0.0 && fb <= 0.0))) {
         *found = 0;
         return 0.0;
     }
-- 
2.43.0


From 7072822ed8a7462c054bbf45c82bbdaf099cdd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:28 +0000
Subject: [PATCH 10/23] fix: forget the previous excesses when a detector is
 fitted again

The counters were reset but the stored excesses (distances to the previous
threshold) were mixed with the new ones.
---
 src/spot.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/spot.c b/src/spot.c
index 3c1132f..798da35 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -77,11 +77,25 @@ void spot_free(struct Spot *spot) {
     tail_free(&(spot->tail));
 }
 
-int spot_fit(struct Spot *spot, double const *data, unsigned long size) {
-    // total number of excesses
-    spot->Nt = 0;
-    spot->n = size;
+/**
+ * @brief Forget all the excesses (the storage is kept)
+ *
+ * @param tail Tail instance
+ */
+static void clear_tail(struct Tail *tail) {
+    struct Peaks *peaks = &(tail->peaks);
+    tail->gamma = _NAN;
+    tail->sigma = _NAN;
+    peaks->e = 0.0;
+    peaks->e2 = 0.0;
+    peaks->min = _NAN;
+    peaks->max = _NAN;
+    peaks->container.cursor = 0;
+    peaks->container.filled = 0;
+    peaks->container.last_erased_data = _NAN;
+}
 
+int spot_fit(struct Spot *spot, double const *data, unsigned long size) {
     // compute excess threshold
     double et;
     if (spot->low) {
@@ -96,6 +110,11 @@ int spot_fit(struct Spot *spot, double const *data, unsigned long size) {
     // here we know that et is not NaN
     spot->excess_threshold = et;
 
+    // start from scratch: nothing remains from a previous fit
+    spot->Nt = 0;
+    spot->n = size;
+    clear_tail(&(spot->tail));
+
     // fill the tail
     for (unsigned long i = 0; i < size; ++i) {
         // positive excess
-- 
2.43.0


From 1daa30f98aae05c827d6b631f8dfaec6306559c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:10 +0000
Subject: [PATCH 11/23] fix: make the Grimshaw root search independent of the
 unit of the data

The bounds and tolerance of the search were absolute (2e-8) whereas the roots
scale as the inverse of the data. With small values (1e-8 and below) a
degenerate root gave a zero scale with an infinite likelihood; with large
values (5e7 and above) the search interval was empty and with ordinary values
the sign of the function at the bounds was rounding noise. Use bounds
relative to the mean of the excesses, as in the original paper.
---
 src/estimator.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/estimator.c b/src/estimator.c
index 700dd2d..909c3de 100644
--- a/src/estimator.c
+++ b/src/estimator.c
@@ -62,7 +62,10 @@ double grimshaw_estimator(struct Peaks const *peaks, double *gamma,
     double maxi = peaks->max;
     double mean = peaks_mean(peaks);
 
-    double epsilon = xmin(BRENT_DEFAULT_EPSILON, 0.5 / maxi);
+    // the roots are homogeneous to the inverse of the data, so are the bounds
+    // and the tolerance of the search (see Grimshaw, 1993)
+    double tol = BRENT_DEFAULT_EPSILON / mean;
+    double epsilon = xmin(1.0e-6 / mean, 0.5 / maxi);
     double r;
     double a, b;
 
@@ -76,8 +79,7 @@ double grimshaw_estimator(struct Peaks const *peaks, double *gamma,
     // left root -------------------------------------------------------------
     a = -1.0 / maxi + epsilon;
     b = -epsilon;
-    r = brent(&found[left], a, b, grimshaw_w, (void *)peaks,
-              BRENT_DEFAULT_EPSILON);
+    r = brent(&found[left], a, b, grimshaw_w, (void *)peaks, tol);
     if (found[left]) {
         roots[left] = r;
     }
@@ -85,8 +87,7 @@ double grimshaw_estimator(struct Peaks const *peaks, double *gamma,
     // right root -------------------------------------------------------------
     a = epsilon;
     b = 2.0 * (mean - mini) / (mini * mini);
-    r = brent(&found[right], a, b, grimshaw_w, (void *)peaks,
-              BRENT_DEFAULT_EPSILON);
+    r = brent(&found[right], a, b, grimshaw_w, (void *)peaks, tol);
     if (found[right]) {
         roots[right] = r;
     }
-- 
2.43.0


From e78e2204f07e29ecaa48cb26f7525eb7a4536b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:10 +0000
Subject: [PATCH 12/23] fix: Spot.fit in Python accepts any sequence and
 reports its errors

A tuple made PyList_Size fail and crashed the interpreter, elements that are
not numbers and a failed allocation were not detected, a failed fit returned
None with an exception set (SystemError) and the converted sequence leaked.
---
 python/libspotmodule.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 0af61aa..ee84c68 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -129,7 +129,8 @@ PyDoc_STRVAR(Spot_fit_doc,
              "on training data");
 
 static PyObject *Spot_fit(Spot *self, PyObject *data) {
-    PyObject *seq = PySequence_Fast(data, "cannot turn arg into sequence");
+    // a new list, whatever the input iterable (list, tuple, array...)
+    PyObject *seq = PySequence_List(data);
     if (seq == NULL) {
         return NULL;
     }
@@ -137,11 +138,21 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
     unsigned long size = (unsigned long)PyList_Size(seq);
 
     // allocate a new raw buffer to pass to the fit method
-    double *x = malloc(size * sizeof(double));
+    double *x = malloc((size > 0 ? size : 1) * sizeof(double));
+    if (x == NULL) {
+        Py_DECREF(seq);
+        return PyErr_NoMemory();
+    }
     for (unsigned long i = 0; i < size; i++) {
         // https://docs.python.org/3/c-api/float.html#c.PyFloat_AsDouble
         x[i] = PyFloat_AsDouble(PyList_GetItem(seq, i));
+        if (x[i] == -1.0 && PyErr_Occurred()) {
+            free(x);
+            Py_DECREF(seq);
+            return NULL;
+        }
     }
+    Py_DECREF(seq);
     // libspot API call
     int result = spot_fit(&(self->_spot), x, size);
     // free the buffer
@@ -152,6 +163,7 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
         char buffer[256];
         libspot_error(-result, buffer, 256);
         PyErr_SetString(PyExc_RuntimeError, buffer);
+        return NULL;
     }
     Py_RETURN_NONE;
 }
-- 
2.43.0


From a2fa45b7c04ad592eae5bc072e1a2e90e09ace46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:10 +0000
Subject: [PATCH 13/23] fix: step, quantile and probability reject non numeric
 values in Python

The conversion error was ignored: -1.0 was used instead (and fed to the
detector) while the exception stayed pending.
---
 python/libspotmodule.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index ee84c68..4023911 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -173,6 +173,9 @@ PyDoc_STRVAR(Spot_step_doc, "step($self, x)\n--\n\n"
 
 static PyObject *Spot_step(Spot *self, PyObject *x) {
     double z = PyFloat_AsDouble(x);
+    if (z == -1.0 && PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     int result = spot_step(&(self->_spot), z);
@@ -185,6 +188,9 @@ PyDoc_STRVAR(Spot_quantile_doc, "quantile($self, q)\n--\n\n"
 
 static PyObject *Spot_quantile(Spot *self, PyObject *x) {
     double q = PyFloat_AsDouble(x);
+    if (q == -1.0 && PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     double z = spot_quantile(&(self->_spot), q);
@@ -198,6 +204,9 @@ PyDoc_STRVAR(Spot_probability_doc,
 
 static PyObject *Spot_probability(Spot *self, PyObject *x) {
     double z = PyFloat_AsDouble(x);
+    if (z == -1.0 && PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     double q = spot_probability(&(self->_spot), z);
-- 
2.43.0


From d6da6e3b0bea05f2ebede6d1d8a5bcec872ee013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:10 +0000
Subject: [PATCH 14/23] fix: release the memory of the Python Spot objects

The deallocator neither freed the object nor released its reference to the
type.
---
 python/libspotmodule.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 4023911..618a43c 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -265,7 +265,11 @@ static void Spot_dealloc(Spot *self) {
     // free internal structure
     // libspot API call
     spot_free(&(self->_spot));
-    // Py_TYPE(self)->tp_free((PyObject *)self);
+    // free the object and release its (heap allocated) type
+    PyTypeObject *type = Py_TYPE(self);
+    freefunc tp_free = (freefunc)PyType_GetSlot(type, Py_tp_free);
+    tp_free(self);
+    Py_DECREF(type);
 }
 
 static const PyMemberDef Spot_members[] = {
-- 
2.43.0


From e4d0065337558a13ee549f6eddb9387984508abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:10 +0000
Subject: [PATCH 15/23] fix: do not leak the tail when a Python Spot is
 initialized again

---
 python/libspotmodule.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 618a43c..8fc37f3 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -113,14 +113,19 @@ static int Spot_init(Spot *self, PyObject *args, PyObject *kwds) {
         return -1;
 
     // libspot API call
-    int result = spot_init(&(self->_spot), q, low, discard_anomalies, level,
-                           max_excess);
+    struct Spot spot;
+    int result =
+        spot_init(&spot, q, low, discard_anomalies, level, max_excess);
     if (result < 0) {
         char buffer[256];
         libspot_error(-result, buffer, 256);
         PyErr_SetString(PyExc_RuntimeError, buffer);
+        return -1;
     }
-    return result;
+    // release a possible previous initialization
+    spot_free(&(self->_spot));
+    self->_spot = spot;
+    return 0;
 }
 
 PyDoc_STRVAR(Spot_fit_doc,
-- 
2.43.0


From 7b8b29d767c69d0dfcf1b38f1867dbe6f6c112a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:10 +0000
Subject: [PATCH 16/23] fix: do not finalize a wasm Spot whose initialization
 has failed

The finalizer was registered before the initialization, so a rejected
construction ended in spot_free on uninitialized memory.
---
 wasm/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wasm/index.ts b/wasm/index.ts
index 2095cc1..cce79f8 100644
--- a/wasm/index.ts
+++ b/wasm/index.ts
@@ -165,11 +165,12 @@ export class Spot {
     maxExcess = 500,
   }: SpotConfig) {
     this.ptr = spotNew();
-    freg.register(this, this.ptr); // kind of destructor
     const code = spotInit(this.ptr, q, low, discardAnomalies, level, maxExcess);
     if (code < 0) {
+      libspot._free(this.ptr); // nothing else to release
       throw new Error(libspotError(-code));
     }
+    freg.register(this, this.ptr); // kind of destructor
   }
 
   anomaly_threshold() {
-- 
2.43.0


From 66c7e65c1a7cfbf7427a7b90bdd54d364368315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:10 +0000
Subject: [PATCH 17/23] fix: wasm fit copies only the given array and always
 releases it

A view on a larger buffer copied the whole buffer from its start (wrong data
and heap overflow), and the heap block leaked when the fit failed.
---
 wasm/index.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wasm/index.ts b/wasm/index.ts
index cce79f8..eecd493 100644
--- a/wasm/index.ts
+++ b/wasm/index.ts
@@ -199,14 +199,17 @@ export class Spot {
     // reserve heap
     const arrayPtr = libspot._malloc(data.length * data.BYTES_PER_ELEMENT);
     // copy array (converted to bytes) to the heap
-    libspot.HEAPU8.set(new Uint8Array(data.buffer), arrayPtr);
+    libspot.HEAPU8.set(
+      new Uint8Array(data.buffer, data.byteOffset, data.byteLength),
+      arrayPtr
+    );
     // call the function
     const code = spotFit(this.ptr, arrayPtr, data.length);
+    // release heap
+    libspot._free(arrayPtr);
     if (code < 0) {
       throw new Error(libspotError(-code));
     }
-    // release heap
-    libspot._free(arrayPtr);
     return code;
   }
 
-- 
2.43.0


From 1dcbf6be4ef965dd28bf7b16e54c8d8661ec12ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:35 +0000
Subject: [PATCH 18/23] fix: reject tail parameters whose support does not
 contain the excesses

When the end point of the candidate tail was exactly the largest excess (and
gamma < -1) the log-likelihood was +inf and this candidate always won.
---
 src/peaks.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/peaks.c b/src/peaks.c
index 97010d7..b5510b3 100644
--- a/src/peaks.c
+++ b/src/peaks.c
@@ -109,7 +109,12 @@ double log_likelihood(struct Peaks const *peaks, double gamma, double sigma) {
     const double c = 1. + 1. / gamma;
     const double x = gamma / sigma;
     for (unsigned long i = 0; i < Nt_local; ++i) {
-        r += -c * xlog(1 + x * peaks->container.data[i]);
+        double const s = 1 + x * peaks->container.data[i];
+        if (s <= 0.) {
+            // the data is not inside the support of the distribution
+            return _NAN;
+        }
+        r += -c * xlog(s);
     }
     return r;
 }
-- 
2.43.0


From f189bb5580b56c07f0dae3f41277b5e2ee050d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:24 +0000
Subject: [PATCH 19/23] fix: libspot_error gives the text of ERR_DATA_IS_NAN
 too

---
 src/spot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spot.c b/src/spot.c
index 798da35..2816f69 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -219,7 +219,7 @@ static const char *errors[] = {
 }; // clang-format on
 
 void libspot_error(enum LibspotError err, char *buffer, unsigned long size) {
-    if ((err >= ERR_MEMORY_ALLOCATION_FAILED) && (err < ERR_DATA_IS_NAN)) {
+    if ((err >= ERR_MEMORY_ALLOCATION_FAILED) && (err <= ERR_DATA_IS_NAN)) {
         int index = err - ERR_MEMORY_ALLOCATION_FAILED;
         strncpy(buffer, errors[index], size);
     }
-- 
2.43.0


From 0a90df4e8c840121972958da13b1ac91a5c31d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:36 +0000
Subject: [PATCH 20/23] fix: pushing without storage is a no-op when the
 allocation has failed

---
 src/ubend.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ubend.c b/src/ubend.c
index ed6a094..ce65f77 100644
--- a/src/ubend.c
+++ b/src/ubend.c
@@ -46,8 +46,8 @@ unsigned long ubend_size(struct Ubend const *ubend) {
 }
 
 double ubend_push(struct Ubend *ubend, double x) {
-    // there is no storage (not initialized or already freed)
-    if (ubend->capacity == 0) {
+    // there is no storage (allocation failed or already freed)
+    if (!ubend->data) {
         return _NAN;
     }
     // if the container has already been filled
-- 
2.43.0


From f1d3fc54dcbcfb5c62471daa6c2a702f7f79a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:03 +0000
Subject: [PATCH 21/23] fix: root search fails when the function becomes NaN
 inside the interval

---
 src/brent.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/brent.c b/src/brent.c
index d195350..ff32a32 100644
--- a/src/brent.c
+++ b/src/brent.c
@@ -108,6 +108,11 @@ double brent(int *found, double x1, double x2, real_function func, void *extra,
         else
             b += ((xm) >= 0.0 ? _fabs(tol1) : -_fabs(tol1));
         fb = func(b, extra);
+        // the sign change is lost
+        if (fb != fb) {
+            *found = 0;
+            return 0.0;
+        }
     }
     // Maximum number of iterations exceeded
     *found = 0;
-- 
2.43.0


From c4313bcbcb8c917090e78505558e7f3dfce17ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:35 +0000
Subject: [PATCH 22/23] fix: the JavaScript binding does not write at address 0
 when the heap is exhausted

---
 wasm/index.ts | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/wasm/index.ts b/wasm/index.ts
index eecd493..0fd299a 100644
--- a/wasm/index.ts
+++ b/wasm/index.ts
@@ -60,13 +60,28 @@ const stringify = (raw: Uint8Array) => {
   return new TextDecoder("utf-8").decode(raw).replace(/\0/g, "");
 };
 
+/**
+ * Reserve heap memory
+ *
+ * @param size number of bytes
+ * @returns the address of the block
+ * @throws {Error} When there is no memory left
+ */
+const alloc = (size: number): number => {
+  const ptr = libspot._malloc(size);
+  if (ptr === 0) {
+    throw new Error("Memory allocation failed");
+  }
+  return ptr;
+};
+
 /**
  *
  * @returns the version of the library
  */
 export const libspotVersion = (): string => {
   const size = 24;
-  let ptr = libspot._malloc(size);
+  let ptr = alloc(size);
   libspot.ccall("libspot_version", null, ["number", "number"], [ptr, size]);
   const version = stringify(libspot.HEAPU8.slice(ptr, ptr + size).buffer);
   libspot._free(ptr);
@@ -80,7 +95,7 @@ export const libspotVersion = (): string => {
  */
 export const libspotError = (code: number): string => {
   const size = 256;
-  let ptr = libspot._malloc(size);
+  let ptr = alloc(size);
   // fill with zeros
   libspot.HEAPU8.fill(0, ptr, ptr + size);
   libspot.ccall(
@@ -165,6 +180,9 @@ export class Spot {
     maxExcess = 500,
   }: SpotConfig) {
     this.ptr = spotNew();
+    if (this.ptr === 0) {
+      throw new Error("Memory allocation failed");
+    }
     const code = spotInit(this.ptr, q, low, discardAnomalies, level, maxExcess);
     if (code < 0) {
       libspot._free(this.ptr); // nothing else to release
@@ -197,7 +215,7 @@ export class Spot {
    */
   fit(data: Float64Array) {
     // reserve heap
-    const arrayPtr = libspot._malloc(data.length * data.BYTES_PER_ELEMENT);
+    const arrayPtr = alloc(data.length * data.BYTES_PER_ELEMENT);
     // copy array (converted to bytes) to the heap
     libspot.HEAPU8.set(
       new Uint8Array(data.buffer, data.byteOffset, data.byteLength),
-- 
2.43.0


From 46d077ee4785c6028e91835d6128f885728d969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:27 +0000
Subject: [PATCH 23/23] fix: the sums of the excesses recover after an overflow

---
 src/peaks.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/peaks.c b/src/peaks.c
index b5510b3..55dd4f4 100644
--- a/src/peaks.c
+++ b/src/peaks.c
@@ -84,6 +84,10 @@ void peaks_push(struct Peaks *peaks, double x) {
             also update e and e2 (the in/decrements may create precision
             errors) */
             peaks_update_stats(peaks);
+        } else if (!(peaks->e2 < _INFINITY)) {
+            /* the accumulators have overflowed: no decrement can bring them
+            back to the sums of the remaining excesses */
+            peaks_update_stats(peaks);
         }
     }
 }
-- 
2.43.0

