From 4f9ae5b1430928fa007227f78fde522c2aef1b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 01/52] fix: HPELM.project wrote rows to wrong positions with
 istart > 0

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 43471b6..d8c8cd6 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -282,7 +282,7 @@ class HPELM(ELM):
             # process data
             Hb = self.nnet._project(Xb)
             # write data
-            H[start:stop-istart] = Hb
+            H[start-istart:stop-istart] = Hb
 
             # report time
             eta = int(((time()-t0) / (b+1)) * (nb-b-1))
-- 
2.43.0


From 238d39fa7cda3ff98104b1c319273e367094ee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 02/52] fix: make_hdf5 could not read text files (mode 'U' is
 gone)

---
 hpelm/modules/hdf5_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index e63152e..6258ee0 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -184,7 +184,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
         # iterative out-of-memory loader for huge .csv/.txt files
         fill = "iter"
         # check data dimensionality
-        with open(data, "rU") as f:
+        with open(data, "r") as f:
             for _ in range(skiprows):
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
@@ -211,7 +211,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
     # write data to hdf5 file
     if fill == "iter":  # iteratively fill the data
         h5data = h5.create_earray(h5.root, "data", a, (0, X.shape[0]), filters=flt)
-        with open(data, "rU") as f:
+        with open(data, "r") as f:
             for _ in range(skiprows):
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
-- 
2.43.0


From 561316d873ed8f379d72339d526c205a27d6c998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 03/52] fix: make_hdf5 stored a single-row compressed text file
 as a column

---
 hpelm/modules/hdf5_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 6258ee0..dfb06f8 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -179,7 +179,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
     elif isinstance(data, string_types) and data[-3:] in ['npy']:
         X = np.load(data)
     elif isinstance(data, string_types) and data[-3:] in ['.gz', 'bz2']:
-        X = np.loadtxt(data, dtype=dtype, delimiter=delimiter, skiprows=skiprows)
+        X = np.loadtxt(data, dtype=dtype, delimiter=delimiter, skiprows=skiprows, ndmin=2)
     elif isinstance(data, string_types) and data[-3:] in ['txt', 'csv']:
         # iterative out-of-memory loader for huge .csv/.txt files
         fill = "iter"
-- 
2.43.0


From 10d657b0f9104e1aaabe14a87b014128e4cf9242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 04/52] fix: normalize_hdf5 without parameters never
 normalized, failed when repeated, and changed the given std

---
 hpelm/modules/hdf5_tools.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index dfb06f8..a1ec376 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -116,7 +116,7 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
         nb += 1  # add last incomplete step
 
     if mean is None or std is None:
-        if node.attrs.mean is None:  # data was not normalized before
+        if getattr(node.attrs, "mean", None) is None:  # data was not normalized before
             print("calculating mean and standard deviation of data")
             E_x = np.zeros((d,), dtype=np.float64)
             E_x2 = np.zeros((d,), dtype=np.float64)
@@ -128,31 +128,29 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
                 E_x2 += np.mean(X1**2, 0) * (1.0*step/N)
             mean = E_x
             E2_x = E_x**2
-            std = (E_x2 - E2_x)**0.5
-            node.attrs.mean = mean
-            node.attrs.std = std
-            h5.close()
-            return mean, std
+            std = np.maximum(E_x2 - E2_x, 0)**0.5
         else:  # data is already normalized
             print("data was already normalized, returning 'mean', 'std' parameters")
             print("if you want to run normalization anyway, call the function with 'mean' and 'std' params")
+            mean, std = node.attrs.mean, node.attrs.std
             h5.close()
-            return node.attrs.mean, node.attrs.std
+            return mean, std
     else:
         msg1 = "Incorrect lenght of a vector of means: %d expected, %d found" % (d, len(mean))
         assert len(mean) == d, msg1
         msg2 = "Incorrect lenght of a vector of standard deviations: %d expected, %d found" % (d, len(std))
         assert len(std) == d, msg2
-        node.attrs.mean = mean
-        node.attrs.std = std
-    std[std == 0] = 1  # prevent division by zero for std=0
+    node.attrs.mean = mean
+    node.attrs.std = std
+    scale = np.array(std, dtype=np.float64)  # a copy, leaves 'std' unchanged
+    scale[scale == 0] = 1  # prevent division by zero for std=0
 
     print("applying normalization")
     for b in range(nb):
         start = b*batch
         step = min(batch, N-start)
         X = node[start: start+step].astype(np.float64)
-        X = (X - mean) / std
+        X = (X - mean) / scale
         node[start: start+step] = X.astype(dt)
 
     h5.close()  # closing file
-- 
2.43.0


From 9ee9d32e91b2e85dbdc45db2623bb522fb55f0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 05/52] fix: mrsr failed on linearly dependent features with
 numpy 2

---
 hpelm/modules/mrsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index ab3547b..77cc3a8 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -97,7 +97,7 @@ def mrsr(X, T, kmax):
         #v3 = XX[i1, :][:, i1]
         try:
             invXX = np.linalg.inv(v3)	   
-        except np.linalg.linalg.LinAlgError:
+        except np.linalg.LinAlgError:
             invXX = np.linalg.pinv(v3)
 
         Wols = np.dot(invXX, XT.take(i1,axis=0))
-- 
2.43.0


From 22e643f7ff7a00d350a452056dbfe9f65e8a2096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 06/52] fix: rbf_param failed to store a distance

---
 hpelm/modules/rbf_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/rbf_param.py b/hpelm/modules/rbf_param.py
index 2124194..c4148d3 100644
--- a/hpelm/modules/rbf_param.py
+++ b/hpelm/modules/rbf_param.py
@@ -39,7 +39,7 @@ def rbf_param(data, k, kind="sqeuclidean"):
         j = ix[i]
         if i == j:
             j += 1
-        dist[i] = cdist(X[i][None, :], X[j][None, :], kind)
+        dist[i] = cdist(X[i][None, :], X[j][None, :], kind)[0, 0]
     m = dist.mean()
     s = dist.std()
 
-- 
2.43.0


From 4c6bf695f09648137378cc9a03fea7edade40678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 07/52] fix: accelerator names were compared by identity

---
 hpelm/elm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 734df2d..db2e8ac 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -72,11 +72,11 @@ class ELM(object):
 
         # create SLFN solver to do actual computations
         self.accelerator = accelerator
-        if accelerator is "GPU":
+        if accelerator == "GPU":
             print("Using CUDA GPU acceleration with Scikit-CUDA")
             from .nnets.slfn_skcuda import SLFNSkCUDA
             self.nnet = SLFNSkCUDA(inputs, outputs, precision=self.precision, norm=norm)
-        elif accelerator is "basic":
+        elif accelerator == "basic":
             print("Using slower basic Python solver")
             self.nnet = SLFN(inputs, outputs, precision=self.precision, norm=norm)
         else: # double precision Numpy solver
-- 
2.43.0


From aa4feee808833c823f505db678af12dc57cd1152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 08/52] fix: neurons with a custom numpy.ufunc could be added
 but not used

---
 hpelm/nnets/slfn.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hpelm/nnets/slfn.py b/hpelm/nnets/slfn.py
index 176c2c4..22d6410 100644
--- a/hpelm/nnets/slfn.py
+++ b/hpelm/nnets/slfn.py
@@ -116,7 +116,13 @@ class SLFN(object):
             H (matrix): an SLFN hidden layer representation, size (N * `L`) where 'L' is number of neurons
         """
         assert self.neurons is not None, "ELM has no neurons"
-        return np.hstack([self.func[ftype](X, W, B) for _, ftype, W, B in self.neurons])
+        H = []
+        for _, ftype, W, B in self.neurons:
+            if isinstance(ftype, np.ufunc):  # custom transformation function
+                H.append(ftype(np.dot(X, W) + B))
+            else:
+                H.append(self.func[ftype](X, W, B))
+        return np.hstack(H)
 
     def _predict(self, X):
         """Predict a batch of data. Auxiliary function that implements a particular prediction.
-- 
2.43.0


From 545567a330455fff9b48d19906a8985d61365b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 09/52] fix: upper case classification mode given at creation
 was ignored

---
 hpelm/elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index db2e8ac..fafe100 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -85,7 +85,7 @@ class ELM(object):
         # init other stuff
         self.classification = None  # train ELM for classification
         if classification.lower() in ("c", "wc", "ml", "mc"):  # allow 'mc'=='ml' for compatibility
-            self.classification = classification.replace("mc", "ml")
+            self.classification = classification.lower().replace("mc", "ml")
         self.wc = None  # weighted classification weights
         if w is not None:
             w = np.array(w)
-- 
2.43.0


From 6109b66d0ead2e5cd4935a3d37cac7511da174a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 10/52] fix: lower case 'v'/'cv'/'loo' silently skipped model
 structure selection

---
 hpelm/elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index fafe100..21e3e92 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -182,7 +182,7 @@ class ELM(object):
         X, T = self._checkdata(X, T)
         self._train_parse_args(args, kwargs)
 
-        # TODO: test upper case and lower case 'V', ...
+        args = [a.upper() for a in args]
         # train ELM with desired model structure selection
         if "V" in args:  # use validation set
             assert "Xv" in kwargs.keys(), "Provide validation dataset (Xv)"
-- 
2.43.0


From f581908319156328fb406688e88cff6f367f1ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 11/52] fix: load kept old content of an accelerated model and
 replaced the default solver

---
 hpelm/elm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 21e3e92..fc0dfe8 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -459,8 +459,7 @@ class ELM(object):
         self.wc = m["Weights_WC"]
 
         # create a new solver and load neurons / Beta into it with correct precision
-        if self.accelerator is None:
-            self.nnet = SLFN(inputs, outputs, precision=self.precision)
+        self.nnet = type(self.nnet)(inputs, outputs, precision=self.precision)
         for number, func, W, B in m["neurons"]:
             self.nnet.add_neurons(number, func, W.astype(self.precision), B.astype(self.precision))
         self.nnet.norm = m["norm"]
-- 
2.43.0


From 451fe3de44bea67f60ed254043c5fcd7aa88f5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 12/52] fix: lower triangle of a full symmetric HH was counted
 twice

---
 hpelm/nnets/slfn_python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/nnets/slfn_python.py b/hpelm/nnets/slfn_python.py
index 8bfdcd0..2e3264e 100644
--- a/hpelm/nnets/slfn_python.py
+++ b/hpelm/nnets/slfn_python.py
@@ -61,7 +61,7 @@ class SLFNPython(SLFN):
         if info > 0:
             print("Covariance matrix is not full rank; solving with SVD (slow)")
             print("This happened because you have duplicated or too many neurons")
-            HH = HH + np.triu(HH, k=1).T
+            HH = np.triu(HH) + np.triu(HH, k=1).T
             B = np.linalg.lstsq(HH, HT)[0]
         return B
 
@@ -69,5 +69,5 @@ class SLFNPython(SLFN):
     def get_corr(self):
         """Return current correlation matrices.
         """
-        HH = self.HH + np.triu(self.HH, k=1).T
+        HH = np.triu(self.HH) + np.triu(self.HH, k=1).T
         return HH, self.HT
-- 
2.43.0


From 3593d5bef80f414c8bba3365830168bae35abfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 13/52] fix: HPELM weighted classification error was NaN with
 an absent class

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index d8c8cd6..a2a3d20 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -363,7 +363,7 @@ class HPELM(ELM):
                         err1 = np.not_equal(Yb[idx].argmax(1), i)
                         errc[i] += err1.sum()
                         countc[i] += len(idx)
-            errc = errc / countc  # get mean value
+            errc = errc / np.maximum(countc, 1)  # get mean value, zero for absent classes
             err = np.sum(errc * self.wc) / np.sum(self.wc)
 
         elif self.classification == "ml":
-- 
2.43.0


From f88bf474694f4f3f39bc584818bb05ede3b31e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 14/52] fix: parallel add_data could truncate or collide on a
 file that another process was creating

---
 hpelm/modules/hdf5_tools.py | 70 +++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index a1ec376..01f4172 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -33,40 +33,42 @@ def _prepare_fHH(fHH, fHT, nnet, precision):
         outputs = nnet.outputs
         norm = nnet.norm
 
-        # process fHH
-        if os.path.isfile(fHH):
-            h5 = open_file(fHH, 'r')
-            node = None
-            for node in h5.walk_nodes():
-                pass  # find a node with whatever name
-            try:
-                assert node is not None, f"Matrix in {fHH} does not exist"
-                s0 = node.shape[0]
-                msg = f"Matrix in {fHH} has a wrong shape: ({L}, {L}) expected, ({s0}, {s0}) found"
-                assert node is not None and node.shape[0] == L and node.shape[1] == L, msg
-            except AssertionError:
-                raise  # re-raise same error
-            finally:
-                h5.close()
-        else:
-            make_hdf5(np.eye(L, L, dtype=precision)*norm, fHH, precision)
-
-        # process fHT
-        if os.path.isfile(fHT):
-            h5 = open_file(fHT, 'r')
-            node = None
-            for node in h5.walk_nodes():
-                pass  # find a node with whatever name
-            try:
-                assert node is not None, f"Matrix in {fHT} does not exist"
-                msg = f"Matrix in {fHT} has a wrong shape: ({L}, {outputs}) expected, ({node.shape[0]}, {node.shape[1]}) found"
-                assert node is not None and node.shape[0] == L and node.shape[1] == outputs, msg
-            except AssertionError:
-                raise  # re-raise same error
-            finally:
-                h5.close()
-        else:
-            make_hdf5((L, outputs), fHT, precision)
+        # process fHH; only one process at a time checks or creates it
+        with fasteners.InterProcessLock(fHH + ".lock"):
+            if os.path.isfile(fHH):
+                h5 = open_file(fHH, 'r')
+                node = None
+                for node in h5.walk_nodes():
+                    pass  # find a node with whatever name
+                try:
+                    assert node is not None, f"Matrix in {fHH} does not exist"
+                    s0 = node.shape[0]
+                    msg = f"Matrix in {fHH} has a wrong shape: ({L}, {L}) expected, ({s0}, {s0}) found"
+                    assert node is not None and node.shape[0] == L and node.shape[1] == L, msg
+                except AssertionError:
+                    raise  # re-raise same error
+                finally:
+                    h5.close()
+            else:
+                make_hdf5(np.eye(L, L, dtype=precision)*norm, fHH, precision)
+
+        # process fHT; only one process at a time checks or creates it
+        with fasteners.InterProcessLock(fHT + ".lock"):
+            if os.path.isfile(fHT):
+                h5 = open_file(fHT, 'r')
+                node = None
+                for node in h5.walk_nodes():
+                    pass  # find a node with whatever name
+                try:
+                    assert node is not None, f"Matrix in {fHT} does not exist"
+                    msg = f"Matrix in {fHT} has a wrong shape: ({L}, {outputs}) expected, ({node.shape[0]}, {node.shape[1]}) found"
+                    assert node is not None and node.shape[0] == L and node.shape[1] == outputs, msg
+                except AssertionError:
+                    raise  # re-raise same error
+                finally:
+                    h5.close()
+            else:
+                make_hdf5((L, outputs), fHT, precision)
 
 
 def _write_fHH(fHH, fHT, HH, HT):
-- 
2.43.0


From 4775c8395a0b0dd219e0b3939f235ff79404c28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 15/52] fix: basic solver returned its own HH, which add_data
 to files then changed

---
 hpelm/nnets/slfn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hpelm/nnets/slfn.py b/hpelm/nnets/slfn.py
index 22d6410..a83d789 100644
--- a/hpelm/nnets/slfn.py
+++ b/hpelm/nnets/slfn.py
@@ -224,7 +224,9 @@ class SLFN(object):
     def get_corr(self):
         """Return current correlation matrices.
         """
-        return self.HH, self.HT
+        if self.HH is None:
+            return None, None
+        return self.HH.copy(), self.HT.copy()  # caller may change them
 
     def set_corr(self, HH, HT):
         """Set pre-computed correlation matrices.
-- 
2.43.0


From 63760d888616b13f50363c8c4791bf10f7c2ea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 16/52] fix: process killed while creating fHH/fHT left an
 unreadable file for all others

---
 hpelm/modules/hdf5_tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 01f4172..9abe6ae 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -50,7 +50,9 @@ def _prepare_fHH(fHH, fHT, nnet, precision):
                 finally:
                     h5.close()
             else:
-                make_hdf5(np.eye(L, L, dtype=precision)*norm, fHH, precision)
+                # file appears complete or not at all, even if the process is killed here
+                make_hdf5(np.eye(L, L, dtype=precision)*norm, fHH + ".tmp", precision)
+                os.rename(fHH + ".tmp", fHH)
 
         # process fHT; only one process at a time checks or creates it
         with fasteners.InterProcessLock(fHT + ".lock"):
@@ -68,7 +70,8 @@ def _prepare_fHH(fHH, fHT, nnet, precision):
                 finally:
                     h5.close()
             else:
-                make_hdf5((L, outputs), fHT, precision)
+                make_hdf5((L, outputs), fHT + ".tmp", precision)
+                os.rename(fHT + ".tmp", fHT)
 
 
 def _write_fHH(fHH, fHT, HH, HT):
-- 
2.43.0


From 49bacb69662354fd0c1dc42565fe43634e731d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 17/52] fix: failed write left fHH/fHT open, blocking other
 processes

---
 hpelm/modules/hdf5_tools.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 9abe6ae..8ee239c 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -82,21 +82,25 @@ def _write_fHH(fHH, fHT, HH, HT):
     fHH_lock = fHH + ".lock"
     with fasteners.InterProcessLock(fHH_lock):
         h5 = open_file(fHH, "a")
-        node = None
-        for node in h5.walk_nodes():
-            pass  # find a node with whatever name
-        node[:] += HH
-        h5.flush()
-        h5.close()
+        try:
+            node = None
+            for node in h5.walk_nodes():
+                pass  # find a node with whatever name
+            node[:] += HH
+            h5.flush()
+        finally:
+            h5.close()
 
     fHT_lock = fHT + ".lock"
     with fasteners.InterProcessLock(fHT_lock):
         h5 = open_file(fHT, "a")
-        for node in h5.walk_nodes():
-            pass  # find a node with whatever name
-        node[:] += HT
-        h5.flush()
-        h5.close()
+        try:
+            for node in h5.walk_nodes():
+                pass  # find a node with whatever name
+            node[:] += HT
+            h5.flush()
+        finally:
+            h5.close()
 
 
 def normalize_hdf5(h5file, mean=None, std=None, batch=None):
-- 
2.43.0


From 6ec00e0a61095637355cb51243f40bf963062dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 18/52] fix: async methods waited forever for a reader that had
 refused a Numpy array

---
 hpelm/hp_elm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index a2a3d20..3e1eb5e 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -485,6 +485,7 @@ class HPELM(ELM):
         """
         # initialize
         assert len(self.nnet.neurons) > 0, "Add neurons to ELM before using it"
+        assert isinstance(fX, string_types) and isinstance(fT, string_types),             "Asyncronous I/O only supported with HDF5 data files"
         X, T = self._checkdata(fX, fT)
         N = X.shape[0]
         # TODO: adapt for GPU solver
@@ -563,6 +564,7 @@ class HPELM(ELM):
         """
         assert len(self.nnet.neurons) > 0, "Add neurons to ELM and train it before using"
         assert self.nnet.B is not None, "Train ELM before predicting"
+        assert isinstance(fX, string_types) and isinstance(fY, string_types),             "Asyncronous I/O only supported with HDF5 data files"
         X, _ = self._checkdata(fX, None)
         N = X.shape[0]
         # custom range adjustments
-- 
2.43.0


From c25e82f951ffef4c8d4a8ebfcc0e230539d287fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 19/52] fix: add_data_async never finished with istart beyond
 the data

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 3e1eb5e..bfa6ba6 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -491,7 +491,7 @@ class HPELM(ELM):
         # TODO: adapt for GPU solver
         _prepare_fHH(fHH, fHT, self.nnet, self.precision)
         # custom range adjustments
-        icount = min(icount, N - istart)
+        icount = max(0, min(icount, N - istart))
         nb = int(np.ceil(float(icount) / self.batch))
 
         # weighted classification initialization
-- 
2.43.0


From e7a81367915cc7550fa8cc2d95a9baf12fbba502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 20/52] fix: predict_async ignored precision of the model

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index bfa6ba6..6b544e5 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -571,7 +571,7 @@ class HPELM(ELM):
         icount = min(icount, N - istart)
         nb = int(np.ceil(float(icount) / self.batch))  # number of batches
         # make file to store results
-        make_hdf5((icount, self.nnet.outputs), fY)
+        make_hdf5((icount, self.nnet.outputs), fY, dtype=self.precision)
 
         # start async reader and writer for HDF5 files
         qr_in = mp.Queue()
-- 
2.43.0


From df71208bb0533230ac7d13fe2601a37e896c3cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 21/52] fix: output file could not be written again after the
 same model evaluated it

---
 hpelm/hp_elm.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 6b544e5..2c437e7 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -204,6 +204,7 @@ class HPELM(ELM):
         nb = int(np.ceil(float(icount) / self.batch))  # number of batches
         # make file to store results
         if isinstance(fY, string_types):
+            self._close_hdf5(fY)
             make_hdf5((icount, self.nnet.outputs), fY, dtype=self.precision)
             h5 = open_file(fY, "a")
             for Y in h5.walk_nodes():
@@ -260,6 +261,7 @@ class HPELM(ELM):
         nb = int(np.ceil(float(icount) / self.batch))  # number of batches
         # make file to store results
         if isinstance(fH, string_types):
+            self._close_hdf5(fH)
             make_hdf5((icount, self.nnet.L), fH, dtype=self.precision)
             h5 = open_file(fH, "a")
             for H in h5.walk_nodes():
@@ -571,6 +573,7 @@ class HPELM(ELM):
         icount = min(icount, N - istart)
         nb = int(np.ceil(float(icount) / self.batch))  # number of batches
         # make file to store results
+        self._close_hdf5(fY)
         make_hdf5((icount, self.nnet.outputs), fY, dtype=self.precision)
 
         # start async reader and writer for HDF5 files
@@ -612,6 +615,13 @@ class HPELM(ELM):
         reader.join()
         writer.join()
 
+    def _close_hdf5(self, fname):
+        """Close own handles of an HDF5 file before writing to it, like those left by `error()`.
+        """
+        for h5 in [h for h in self.opened_hdf5 if h.filename == fname]:
+            h5.close()
+            self.opened_hdf5.remove(h5)
+
     def _checkcorr(self, fHH, fHT):
         """Analog of `_checkdata()` for correlation matrices.
         """
-- 
2.43.0


From 0568bf5d88d8f614006168c25d3c347f6cf3eb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 22/52] fix: model structure selection dropped class weights in
 the final training

---
 hpelm/mss_cv.py  | 2 +-
 hpelm/mss_loo.py | 2 +-
 hpelm/mss_v.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 35f349c..3eda2a8 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -118,7 +118,7 @@ def train_cv(self, X, T, k):
         err_t += self._error(Tts, Yts) / k
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)  # applies class weights
     self.nnet.solve()
 #    print "%d of %d neurons selected with a Cross-Validation" % (len(best_nn), nn)
 #    print "the Cross-Validation test error is %f" % err_ts
diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index 94c6dfd..553aa5c 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -89,7 +89,7 @@ def train_loo(self, X, T):
     best_L = rank[:k_opt]
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)  # applies class weights
     self.nnet.solve()
 #    print "%d of %d neurons selected with a LOO validation" % (len(best_nn), nn)
 #    if len(best_nn) > nn*0.9:
diff --git a/hpelm/mss_v.py b/hpelm/mss_v.py
index 33b5829..92cad4b 100644
--- a/hpelm/mss_v.py
+++ b/hpelm/mss_v.py
@@ -78,7 +78,7 @@ def train_v(self, X, T, Xv, Tv):
     best_L = rank[:k_opt]
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)  # applies class weights
     self.nnet.solve()
 #    print "%d of %d neurons selected with a validation set" % (len(best_nn), nn)
 #    if len(best_nn) > nn*0.9:
-- 
2.43.0


From 62d29925ac21eb544bf939b1bfbe9112ac54aa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 23/52] fix: cross-validation ignored class weights, and failed
 without explicit ones

---
 hpelm/elm.py    | 9 +++++++--
 hpelm/mss_cv.py | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index fc0dfe8..ca7ded1 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -223,8 +223,7 @@ class ELM(object):
 
         # find automatic weights if none are given
         if self.classification == "wc" and self.wc is None:
-            ns = T.sum(axis=0).astype(self.precision)  # number of samples in classes
-            self.wc = ns.sum() / ns  # weights of classes
+            self.wc = self._auto_weights(T)
 
         for X0, T0 in zip(np.array_split(X, nb, axis=0),
                           np.array_split(T, nb, axis=0)):
@@ -232,6 +231,12 @@ class ELM(object):
                 wc_vector = self.wc[np.where(T0 == 1)[1]]  # weights for samples in the batch
             self.nnet.add_batch(X0, T0, wc_vector)
 
+    def _auto_weights(self, T):
+        """Automatic class weights for weighted classification.
+        """
+        ns = T.sum(axis=0).astype(self.precision)  # number of samples in classes
+        return ns.sum() / ns  # weights of classes
+
     def add_neurons(self, number, func, W=None, B=None):
         """Adds neurons to ELM model. ELM is created empty, and needs some neurons to work.
 
diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 3eda2a8..6940ace 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -28,6 +28,8 @@ def train_cv(self, X, T, k):
     N = X.shape[0]
     L = self.nnet.L
     c = self.nnet.outputs
+    if self.classification == "wc" and self.wc is None:
+        self.wc = self._auto_weights(T)  # weights of the whole data set, not of a fold
 
     idxk = []
     for i in range(k):
@@ -46,7 +48,7 @@ def train_cv(self, X, T, k):
         Xts = X[idx_ts]
         Tts = T[idx_ts]
         self.nnet.reset()
-        self.nnet.add_batch(Xtr, Ttr)
+        self.add_data(Xtr, Ttr)  # applies class weights
         HH, HT = self.nnet.get_corr()
         Hvl = self.nnet._project(Xvl)
         Hts = self.nnet._project(Xts)
-- 
2.43.0


From d342bc713e49715b083b531254b3830f4eccea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 24/52] fix: cross-validation failed with less than 3 neurons

---
 hpelm/mss_cv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 6940ace..1dab350 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -70,7 +70,7 @@ def train_cv(self, X, T, k):
     # halve the interval each time
 
     # initialize intervals
-    iA = 3
+    iA = min(3, L)
     iE = L
     l = iE - iA
     iB = iA + l//4
-- 
2.43.0


From b5f7c9526efae1d28151a02e175f94abee50adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 25/52] fix: cross-validation returned test error of all
 neurons instead of the selected ones

---
 hpelm/mss_cv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 1dab350..6b35834 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -115,8 +115,8 @@ def train_cv(self, X, T, k):
     # get test error
     err_t = 0
     for HH, HT, _, _, Hts, Tts, _ in datak:
-        B = self.nnet.solve_corr(HH, HT)
-        Yts = np.dot(Hts, B)
+        B = self.nnet.solve_corr(HH[best_L, :][:, best_L], HT[best_L, :])
+        Yts = np.dot(Hts[:, best_L], B)
         err_t += self._error(Tts, Yts) / k
 
     self.nnet._prune(best_L)
-- 
2.43.0


From 943d7fd9ba7c2371e07926c27b4df8c0d53199db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 26/52] fix: with kmax, structure selection took the error of
 all neurons for that of the best kmax

---
 hpelm/mss_cv.py  | 1 -
 hpelm/mss_loo.py | 1 -
 hpelm/mss_v.py   | 1 -
 3 files changed, 3 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 6b35834..8326ff2 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -63,7 +63,6 @@ def train_cv(self, X, T, k):
         Yvl = np.dot(Hvl, B)
         err += self._error(Tvl, Yvl) / k
     penalty = err * 0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L * penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index 553aa5c..c3bca3a 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -37,7 +37,6 @@ def train_loo(self, X, T):
     err = self._error(T, Y, R)
 
     penalty = err * 0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L * penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
diff --git a/hpelm/mss_v.py b/hpelm/mss_v.py
index 92cad4b..488bcc3 100644
--- a/hpelm/mss_v.py
+++ b/hpelm/mss_v.py
@@ -32,7 +32,6 @@ def train_v(self, X, T, Xv, Tv):
     err = self._error(Tv, Yv)
     # TODO: replace penalty by Akaike-BIC criterion
     penalty = err*0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L*penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
-- 
2.43.0


From 5bbf3de3ff162d37aa609a65e84724cad8adaa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 27/52] fix: validation_corr tried more neurons than the model
 has, and refused a vector of steps

---
 hpelm/hp_elm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 2c437e7..03a97fd 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -419,9 +419,13 @@ class HPELM(ELM):
         L = self.nnet.L
         classification = self.classification is not None
 
-        Ls = np.logspace(np.log(3), np.log(L), steps, base=np.e, endpoint=True)
-        Ls = np.ceil(Ls).astype(int)
+        if np.ndim(steps) == 0:
+            Ls = np.logspace(np.log(min(3, L)), np.log(L), steps, base=np.e, endpoint=True)
+            Ls = np.ceil(np.round(Ls, 6)).astype(int)  # exp(log(L)) can be slightly above L
+        else:
+            Ls = np.array(steps, dtype=int)
         Ls = np.unique(Ls)  # numbers of neurons to check
+        assert Ls[0] > 0 and Ls[-1] <= L, "Numbers of neurons must be between 1 and %d" % L
         k = Ls.shape[0]
         errs = np.zeros((k,))  # errors for these numbers of neurons
         nb = int(np.ceil(float(N) / self.batch))
-- 
2.43.0


From df10528fe890f6e5bf6822f33abfffb46c0107ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 28/52] fix: weighted classification error of validation_corr
 depended on the batch size

---
 hpelm/hp_elm.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 03a97fd..5c3bfa9 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -447,7 +447,8 @@ class HPELM(ELM):
             for i in xrange(k):
                 hb1 = Hb[:, :Ls[i]]
                 Yb = np.dot(hb1, Betas[i])
-                errs[i] += self._error(Tb, Yb) * float(stop-start)/N
+                if self.classification != "wc":  # an average over classes, not over samples
+                    errs[i] += self._error(Tb, Yb) * float(stop-start)/N
                 if classification: confs[i] += self.confusion(Tb, Yb)
             # report time
             eta = int(((time()-t0) / (b+1)) * (nb-b-1))
@@ -455,6 +456,12 @@ class HPELM(ELM):
                 print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
+        if self.classification == "wc":
+            for i in xrange(k):
+                countc = confs[i].sum(axis=1)
+                errc = (countc - np.diag(confs[i])) / np.maximum(countc, 1)
+                errs[i] = np.sum(errc * self.wc) / np.sum(self.wc)
+
         k_opt = np.argmin(errs)
         best_L = Ls[k_opt]
         self.nnet._prune(np.arange(best_L))
-- 
2.43.0


From 4acb39d37ee15f637f3d091d44eea154b97e61b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 29/52] fix: mrsr failed on a single feature

---
 hpelm/modules/mrsr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index 77cc3a8..e437b1e 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -71,6 +71,8 @@ def mrsr(X, T, kmax):
     Yols  = np.dot(Xi1, np.reshape(Wols, (1,-1)))
     B     = np.dot(Yols.T, Xi2)
     G     = (cmax+np.dot(S,A))/(cmax+np.dot(S,B))
+    if kmax == 1:  # no next step; G is empty for a single feature
+        return i1
     g     = G[G>=0].min()
     Y = g*Yols
 
-- 
2.43.0


From 3b0a0fde42e3b6fe1d84dec33f02a6ac170f1f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 30/52] fix: mrsr failed if no feature limits the step, like
 with duplicated features

---
 hpelm/modules/mrsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index e437b1e..4b228cc 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -112,7 +112,7 @@ def mrsr(X, T, kmax):
         G    = (cmax + S.dot(A)) / (cmax + S.dot(B))  # true slow for many outputs
         # now we remove that line using a condition:
         # G = numpy.concatenate(([2*(k==m)-1], G.flatten()), 1)
-        if k == kmax:  # G[G>=0] is empty if k==kmax; empty.min() will give error
+        if k == kmax or not (G>=0).any():  # G[G>=0] is empty if k==kmax; empty.min() will give error
             Y = Yols
         else:
             g = G[G>=0].min()
-- 
2.43.0


From f314cca9610bb2d747d7f46f292536f4cdd91d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 31/52] fix: mrsr failed on a single feature, or targets
 orthogonal to all features

---
 hpelm/modules/mrsr.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index 4b228cc..46afee2 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -71,9 +71,7 @@ def mrsr(X, T, kmax):
     Yols  = np.dot(Xi1, np.reshape(Wols, (1,-1)))
     B     = np.dot(Yols.T, Xi2)
     G     = (cmax+np.dot(S,A))/(cmax+np.dot(S,B))
-    if kmax == 1:  # no next step; G is empty for a single feature
-        return i1
-    g     = G[G>=0].min()
+    g     = G[G>=0].min() if (G>=0).any() else 1.0  # nothing limits the step, like with a single feature
     Y = g*Yols
 
     # Rest of the steps
-- 
2.43.0


From b05ffe4c4893c023466dea39785e20852d3bf090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 32/52] fix: default solver replaced the solution with NaN when
 there was no data to solve

---
 hpelm/nnets/slfn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/nnets/slfn.py b/hpelm/nnets/slfn.py
index a83d789..ace0b04 100644
--- a/hpelm/nnets/slfn.py
+++ b/hpelm/nnets/slfn.py
@@ -170,6 +170,7 @@ class SLFN(object):
     def solve(self):
         """Redirects to solve_corr, to avoid duplication of code.
         """
+        assert self.HH is not None, "Add data before solving"
         self.B = self.solve_corr(self.HH, self.HT)
 
     def solve_corr(self, HH, HT):
-- 
2.43.0


From 9a2084716cea005b19cde5fd546dd44c1d79a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 33/52] fix: ELM.add_data accepted data of wrong shape, and
 refused 1-dimensional data

---
 hpelm/elm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index ca7ded1..213c8d9 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -217,6 +217,7 @@ class ELM(object):
             X (matrix): input training data
             T (matrix): output training data
         """
+        X, T = self._checkdata(X, T)
         # initialize batch size
         nb = int(np.ceil(float(X.shape[0]) / self.batch))
         wc_vector = None
-- 
2.43.0


From 9558e63cbdf2c67350668b5dec90aae789d83535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 34/52] fix: error and confusion accepted different number of
 true and predicted samples

---
 hpelm/elm.py    | 2 ++
 hpelm/hp_elm.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 213c8d9..5fa9de1 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -317,6 +317,7 @@ class ELM(object):
         """
         _, T = self._checkdata(None, T)
         _, Y = self._checkdata(None, Y)
+        assert T.shape[0] == Y.shape[0], "T and Y cannot have different number of samples"
         return self._error(T, Y)
 
     def confusion(self, T, Y):
@@ -336,6 +337,7 @@ class ELM(object):
         assert self.classification in ("c", "wc", "ml"), "Confusion matrix works only for regression"
         _, T = self._checkdata(None, T)
         _, Y = self._checkdata(None, Y)
+        assert T.shape[0] == Y.shape[0], "T and Y cannot have different number of samples"
         N = T.shape[0]
         nb = int(np.ceil(float(N) / self.batch))  # number of batches
 
diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 5c3bfa9..852b9db 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -325,6 +325,7 @@ class HPELM(ELM):
         """
         _, T = self._checkdata(None, fT)
         _, Y = self._checkdata(None, fY)
+        assert T.shape[0] == Y.shape[0], "T and Y cannot have different number of samples"
         return self._error(T, Y, istart=istart, icount=icount)
 
     def _error(self, T, Y, istart=0, icount=np.inf):
-- 
2.43.0


From e05525ee1d7516f7b4f64fc8e792d8f3da097217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 35/52] fix: HPELM.predict could lose rows that did not fit
 into the given matrix

---
 hpelm/hp_elm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 852b9db..013178c 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -213,6 +213,7 @@ class HPELM(ELM):
             Y = np.zeros((icount, self.nnet.outputs), dtype=self.precision)
         else:  # fY is Numpy array
             _, Y = self._checkdata(None, fY)
+            assert Y.shape[0] >= icount, "Numpy matrix fY has not enough rows to store predicted outputs"
 
         t = time()
         t0 = time()
-- 
2.43.0


From 4f5732e753dbee6e8790efcfc8bcd8e5b674b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 36/52] fix: basic solver gave random output weights with an
 almost singular HH

---
 hpelm/nnets/slfn.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hpelm/nnets/slfn.py b/hpelm/nnets/slfn.py
index ace0b04..c6f82c8 100644
--- a/hpelm/nnets/slfn.py
+++ b/hpelm/nnets/slfn.py
@@ -182,9 +182,8 @@ class SLFN(object):
             HH (matrix): covariance matrix of hidden layer represenation H, size (`L` * `L`)
             HT (matrix): correlation matrix between H and outputs T, size (`L` * `outputs`)
         """
-        HH_pinv = np.linalg.pinv(HH)
-        B = np.dot(HH_pinv, HT)
-        return B
+        # explicit inverse of an almost singular HH is too large to multiply with, and B would be random
+        return np.linalg.lstsq(HH, HT)[0]
 
     def _prune(self, idx):
         """Leave only neurons with the given indexes.
-- 
2.43.0


From 9307b14b22e0a05466af3275fb7fcb5466ec01d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 37/52] fix: failed make_hdf5 left its file open, which blocked
 other processes

---
 hpelm/modules/hdf5_tools.py | 41 +++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 8ee239c..1e20038 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -215,26 +215,27 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
         flt = Filters(complevel=0)
     h5 = open_file(h5file, "w")
     a = Atom.from_dtype(np.dtype(dtype), dflt=0)
-    # write data to hdf5 file
-    if fill == "iter":  # iteratively fill the data
-        h5data = h5.create_earray(h5.root, "data", a, (0, X.shape[0]), filters=flt)
-        with open(data, "r") as f:
-            for _ in range(skiprows):
-                f.readline()
-            reader = csv.reader(f, delimiter=delimiter)
-            for line in reader:
-                row = np.fromiter(line, dtype=dtype)
-                h5data.append(row[np.newaxis, :])
-    elif fill == "empty":  # no fill at all
-        h5data = h5.create_carray(h5.root, "data", a, data, filters=flt)
-    else:  # write whole data matrix
-        h5data = h5.create_carray(h5.root, "data", a, X.shape, filters=flt)
-        h5data[:] = X
-    # close the file
-    h5data.attrs.mean = None
-    h5data.attrs.std = None
-    h5.flush()
-    h5.close()
+    try:
+        # write data to hdf5 file
+        if fill == "iter":  # iteratively fill the data
+            h5data = h5.create_earray(h5.root, "data", a, (0, X.shape[0]), filters=flt)
+            with open(data, "r") as f:
+                for _ in range(skiprows):
+                    f.readline()
+                reader = csv.reader(f, delimiter=delimiter)
+                for line in reader:
+                    row = np.fromiter(line, dtype=dtype)
+                    h5data.append(row[np.newaxis, :])
+        elif fill == "empty":  # no fill at all
+            h5data = h5.create_carray(h5.root, "data", a, data, filters=flt)
+        else:  # write whole data matrix
+            h5data = h5.create_carray(h5.root, "data", a, X.shape, filters=flt)
+            h5data[:] = X
+        h5data.attrs.mean = None
+        h5data.attrs.std = None
+        h5.flush()
+    finally:
+        h5.close()  # an open file would be locked for other processes
 
 
 def _ireader(fX, q_in, q_out):
-- 
2.43.0


From 68f8315350273568b47eaae76036f0e2b9958712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 38/52] fix: process killed while writing large fHH/fHT left a
 part of its contribution there

---
 hpelm/modules/hdf5_tools.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 1e20038..137e09f 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -14,6 +14,7 @@ from six.moves import range
 import csv
 from tables import open_file, Atom, Filters
 import os
+import shutil
 import fasteners  # inter-process file lock
 
 
@@ -81,7 +82,9 @@ def _write_fHH(fHH, fHT, HH, HT):
     """
     fHH_lock = fHH + ".lock"
     with fasteners.InterProcessLock(fHH_lock):
-        h5 = open_file(fHH, "a")
+        # a copy replaces the file, so it is updated completely or not at all if the process is killed here
+        shutil.copyfile(fHH, fHH + ".tmp")
+        h5 = open_file(fHH + ".tmp", "a")
         try:
             node = None
             for node in h5.walk_nodes():
@@ -90,10 +93,12 @@ def _write_fHH(fHH, fHT, HH, HT):
             h5.flush()
         finally:
             h5.close()
+        os.replace(fHH + ".tmp", fHH)
 
     fHT_lock = fHT + ".lock"
     with fasteners.InterProcessLock(fHT_lock):
-        h5 = open_file(fHT, "a")
+        shutil.copyfile(fHT, fHT + ".tmp")
+        h5 = open_file(fHT + ".tmp", "a")
         try:
             for node in h5.walk_nodes():
                 pass  # find a node with whatever name
@@ -101,6 +106,7 @@ def _write_fHH(fHH, fHT, HH, HT):
             h5.flush()
         finally:
             h5.close()
+        os.replace(fHT + ".tmp", fHT)
 
 
 def normalize_hdf5(h5file, mean=None, std=None, batch=None):
-- 
2.43.0


From c323fbfd8c647a5717150c0ab0dbabfebb510e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 39/52] fix: mrsr2 stepped towards the estimation that includes
 the new feature, and ignored its norm

---
 hpelm/modules/mrsr2.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hpelm/modules/mrsr2.py b/hpelm/modules/mrsr2.py
index 067cec5..a129770 100644
--- a/hpelm/modules/mrsr2.py
+++ b/hpelm/modules/mrsr2.py
@@ -85,7 +85,7 @@ def mrsr2(X, T, kmax, norm=2):
             #c_max = np.linalg.norm(np.dot(T2, X[:, j_current]), norm)
             
             #fun = lambda y,x_new: (1-y)*c_max - np.linalg.norm(T2.dot(x_new) - y*Yk2.dot(x_new))
-            fun_p = lambda y,p1,p2: (1-y)*c_max - np.linalg.norm(p1 - y*p2)  # super fast parametrized function
+            fun_p = lambda y,p1,p2: (1-y)*c_max - np.linalg.norm(p1 - y*p2, norm)  # super fast parametrized function
     
             # find optimal step (minimum over possible additional inputs) 
             y_min = 1  # upper interval
@@ -94,7 +94,7 @@ def mrsr2(X, T, kmax, norm=2):
                 # pre-calculate constant parts of the optimization function for the given x_new
                 p1 = T2.dot(x_new)
                 p2 = Yk2.dot(x_new)
-                if (1-y_min)*c_max < np.linalg.norm(p1 - y_min*p2):  # skip optimization if min(fun) > y_min
+                if (1-y_min)*c_max < np.linalg.norm(p1 - y_min*p2, norm):  # skip optimization if min(fun) > y_min
                     try:
                         zero = 1E-15  # finding a value greater than zero
                         y_kj = optimize.brentq(fun_p, zero, y_min, xtol=1E-6, args=(p1,p2))
@@ -117,6 +117,12 @@ def mrsr2(X, T, kmax, norm=2):
             idx = len(rank)-1
             XA[:,idx] = X[:,j_current]
 
+        if len(rank) > 1:
+            # perform variable length step towards the estimation without the newly added input
+            Y = (1-y_min)*Y + y_min*Yk1
+            W = (1-y_min)*W
+            W[rank[:Wk1.shape[0]]] += y_min*Wk1
+
         # post-update ELM estimation with current set of inputs, with LU-ELM
         XtX = XX[rank,:][:,rank]
         XtT = XT[rank,:]
@@ -125,12 +131,6 @@ def mrsr2(X, T, kmax, norm=2):
         X1 = XA[:,:len(rank)]  # replace fancy indexing with simple one
         Yk1 = np.dot(X1, Wk1)  
 
-        if len(rank) > 1:
-            # perform variable length step
-            Y = (1-y_min)*Y + y_min*Yk1
-            W = (1-y_min)*W     
-            W[rank] += y_min*Wk1   
-               
     # done, return ranking
     return rank
 
-- 
2.43.0


From 48f5a4c5a75257313c1b91d1fc11d5e59e80a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 40/52] fix: mrsr2 returned fewer features than asked with few
 samples, and lost the order after dependent features

---
 hpelm/modules/mrsr2.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hpelm/modules/mrsr2.py b/hpelm/modules/mrsr2.py
index a129770..6778279 100644
--- a/hpelm/modules/mrsr2.py
+++ b/hpelm/modules/mrsr2.py
@@ -4,7 +4,6 @@
 import numpy as np
 from six.moves import xrange
 from scipy import optimize
-from scipy.linalg import lu_factor, lu_solve
 
 
 def mrsr2(X, T, kmax, norm=2):
@@ -47,7 +46,7 @@ def mrsr2(X, T, kmax, norm=2):
     Yk1 = np.zeros(T.shape)
     Wk1 = np.zeros((1, outs))
     j_current = None  # currently added input dimension
-    kmax = min(kmax, X.shape[0])    
+    kmax = min(kmax, ins)
     
     # get ranking
     for _ in xrange(kmax):
@@ -123,11 +122,10 @@ def mrsr2(X, T, kmax, norm=2):
             W = (1-y_min)*W
             W[rank[:Wk1.shape[0]]] += y_min*Wk1
 
-        # post-update ELM estimation with current set of inputs, with LU-ELM
+        # post-update ELM estimation with current set of inputs
         XtX = XX[rank,:][:,rank]
         XtT = XT[rank,:]
-        LU, piv = lu_factor(XtX)#, overwrite_a=True)
-        Wk1 = lu_solve((LU, piv), XtT)#, overwrite_b=True)
+        Wk1 = np.linalg.lstsq(XtX, XtT, rcond=None)[0]  # features may be linearly dependent
         X1 = XA[:,:len(rank)]  # replace fancy indexing with simple one
         Yk1 = np.dot(X1, Wk1)  
 
-- 
2.43.0


From d6564cf9d12ed6a939e2324acc0748463a7bf2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:15 +0000
Subject: [PATCH 41/52] fix: rbf_param never returned for data without any
 distances

---
 hpelm/modules/rbf_param.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/modules/rbf_param.py b/hpelm/modules/rbf_param.py
index c4148d3..552557e 100644
--- a/hpelm/modules/rbf_param.py
+++ b/hpelm/modules/rbf_param.py
@@ -42,6 +42,8 @@ def rbf_param(data, k, kind="sqeuclidean"):
         dist[i] = cdist(X[i][None, :], X[j][None, :], kind)[0, 0]
     m = dist.mean()
     s = dist.std()
+    if not m > 0:  # one row, or all rows are the same: there is no distance, but widths must be positive
+        m, s = 1.0, 0.0
 
     # fill centroids as random points
     ix = np.random.choice(N, size=k)
-- 
2.43.0


From 8534b47d897edc78af1d4b38f7a8f886fd1f99ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 42/52] fix: normalize_hdf5 lost the standard deviation of
 columns with a large mean

---
 hpelm/modules/hdf5_tools.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 137e09f..86e4dba 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -133,17 +133,19 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
     if mean is None or std is None:
         if getattr(node.attrs, "mean", None) is None:  # data was not normalized before
             print("calculating mean and standard deviation of data")
-            E_x = np.zeros((d,), dtype=np.float64)
-            E_x2 = np.zeros((d,), dtype=np.float64)
+            shift = node[0, :].astype(np.float64)  # makes values of constant columns exactly zero
+            mean = np.zeros((d,), dtype=np.float64)
+            M2 = np.zeros((d,), dtype=np.float64)  # sum of squared differences from the mean
             for b in range(nb):
                 start = b*batch
                 step = min(batch, N-start)
-                X1 = node[start: start+step, :].astype(np.float64)
-                E_x += np.mean(X1, 0) * (1.0*step/N)
-                E_x2 += np.mean(X1**2, 0) * (1.0*step/N)
-            mean = E_x
-            E2_x = E_x**2
-            std = np.maximum(E_x2 - E2_x, 0)**0.5
+                X1 = node[start: start+step, :].astype(np.float64) - shift
+                mean1 = np.mean(X1, 0)
+                delta = mean1 - mean
+                M2 += np.sum((X1 - mean1)**2, 0) + delta**2 * (1.0*start*step/(start+step))
+                mean = mean + delta * (1.0*step/(start+step))
+            mean = mean + shift
+            std = (M2/N)**0.5
         else:  # data is already normalized
             print("data was already normalized, returning 'mean', 'std' parameters")
             print("if you want to run normalization anyway, call the function with 'mean' and 'std' params")
-- 
2.43.0


From c33e16f86c085a942b4b679ec395f6e83cfbda1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 43/52] fix: normalize_hdf5 refused wrong parameters but left
 the file open

---
 hpelm/modules/hdf5_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 86e4dba..01f2f63 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -153,6 +153,8 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
             h5.close()
             return mean, std
     else:
+        if len(mean) != d or len(std) != d:
+            h5.close()  # the file of a refused call stays usable
         msg1 = "Incorrect lenght of a vector of means: %d expected, %d found" % (d, len(mean))
         assert len(mean) == d, msg1
         msg2 = "Incorrect lenght of a vector of standard deviations: %d expected, %d found" % (d, len(std))
-- 
2.43.0


From 969948e0884ac361ce7640e3c10ab73b09f86126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 44/52] fix: make_hdf5 failed on empty lines in .txt and .csv
 files, unlike in compressed ones

---
 hpelm/modules/hdf5_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 01f2f63..e451d27 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -206,6 +206,8 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
             for line in reader:
+                if len(line) == 0:
+                    continue
                 X = np.fromiter(line, dtype=dtype)
                 break
     elif isinstance(data, tuple) and len(data) == 2:
@@ -234,6 +236,8 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
                     f.readline()
                 reader = csv.reader(f, delimiter=delimiter)
                 for line in reader:
+                    if len(line) == 0:
+                        continue  # skip empty lines
                     row = np.fromiter(line, dtype=dtype)
                     h5data.append(row[np.newaxis, :])
         elif fill == "empty":  # no fill at all
-- 
2.43.0


From 6e594cc9107c38b48c592c9b82a110c3848bf9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 45/52] fix: normalize_hdf5 failed without 'batch' on files
 whose array is not chunked

---
 hpelm/modules/hdf5_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index e451d27..15588ff 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -125,7 +125,7 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
     dt = node.dtype
     N, d = node.shape  # HDF5 files are transposed, for Matlab compatibility
     if batch is None:
-        batch = node.chunkshape[0]
+        batch = node.chunkshape[0] if node.chunkshape else node.nrowsinbuf  # arrays may have no chunks
     nb = N//batch
     if N > nb*batch:
         nb += 1  # add last incomplete step
-- 
2.43.0


From f3b7af0edfd83a4672f3bfca58eb90533cde68e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 46/52] fix: make_hdf5 stored wrong values of a one-column
 array viewed with negative strides

---
 hpelm/modules/hdf5_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 15588ff..a20e969 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -244,7 +244,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
             h5data = h5.create_carray(h5.root, "data", a, data, filters=flt)
         else:  # write whole data matrix
             h5data = h5.create_carray(h5.root, "data", a, X.shape, filters=flt)
-            h5data[:] = X
+            h5data[:] = np.ascontiguousarray(X)  # rows of reversed views are not stored correctly
         h5data.attrs.mean = None
         h5data.attrs.std = None
         h5.flush()
-- 
2.43.0


From 1c6d9a66e94546286f84749ff6437c9103431725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 47/52] fix: rbf_param accepted HDF5 files only with a node
 named 'data', unlike all other functions

---
 hpelm/modules/rbf_param.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hpelm/modules/rbf_param.py b/hpelm/modules/rbf_param.py
index 552557e..7c228de 100644
--- a/hpelm/modules/rbf_param.py
+++ b/hpelm/modules/rbf_param.py
@@ -26,7 +26,9 @@ def rbf_param(data, k, kind="sqeuclidean"):
         kind = "sqeuclidean"
     if isinstance(data, string_types):
         h5 = open_file(data, "r")
-        X = h5.root.data
+        X = None
+        for X in h5.walk_nodes():
+            pass  # find a node with whatever name
     else:
         X = np.array(data)
         assert len(X.shape) == 2, "Data must be a 2-dim matrix"
-- 
2.43.0


From c8d6e4cb05b0093494faa50045f7e9162dbcf174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 48/52] fix: mrsr2 skipped features with the same correlation
 as the chosen ones

---
 hpelm/modules/mrsr2.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/hpelm/modules/mrsr2.py b/hpelm/modules/mrsr2.py
index 6778279..5a3039e 100644
--- a/hpelm/modules/mrsr2.py
+++ b/hpelm/modules/mrsr2.py
@@ -93,18 +93,14 @@ def mrsr2(X, T, kmax, norm=2):
                 # pre-calculate constant parts of the optimization function for the given x_new
                 p1 = T2.dot(x_new)
                 p2 = Yk2.dot(x_new)
-                if (1-y_min)*c_max < np.linalg.norm(p1 - y_min*p2, norm):  # skip optimization if min(fun) > y_min
-                    try:
-                        zero = 1E-15  # finding a value greater than zero
-                        y_kj = optimize.brentq(fun_p, zero, y_min, xtol=1E-6, args=(p1,p2))
-                        y_min = y_kj
-                        j_min = j_new
-                    except ValueError:  
-                        # ValueError: f(a) and f(b) must have different signs
-                        # here f(a) < 0 and f(b) < 0; does not fit our purposes anyway 
-                        # ignoring this case
-                        pass                  
-                    
+                if (1-y_min+1E-9)*c_max < np.linalg.norm(p1 - y_min*p2, norm):  # skip optimization if min(fun) > y_min
+                    zero = 1E-15  # finding a value greater than zero
+                    if fun_p(zero, p1, p2) > 0:
+                        y_min = optimize.brentq(fun_p, zero, y_min, xtol=1E-6, args=(p1,p2))
+                    else:  # already has the same correlation as the current inputs
+                        y_min = 0
+                    j_min = j_new
+
             if y_min == 1:  # if no suitable solution was found
                 j_min = j_new
             j_current = j_min
-- 
2.43.0


From 2f809103b9a0e2deb9e685d954f86f589e1280e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 49/52] fix: leave-one-out selection was random or failed with
 an almost singular HH

---
 hpelm/mss_loo.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index c3bca3a..1534828 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -30,9 +30,8 @@ def train_loo(self, X, T):
     rank, L = self._ranking(L, H, T)  # create ranking of neurons
 
     # PRESS_LOO
-    P = np.linalg.inv(HH)
-    Bt = np.dot(P, HT)
-    R = np.ones((N,)) - np.einsum('ij,ji->i', np.dot(H, P), H.T)
+    Bt = np.linalg.lstsq(HH, HT)[0]  # inverse of an almost singular HH is too large to multiply with
+    R = np.ones((N,)) - np.einsum('ij,ji->i', H, np.linalg.lstsq(HH, H.T)[0])
     Y = np.dot(H, Bt)
     err = self._error(T, Y, R)
 
@@ -61,9 +60,8 @@ def train_loo(self, X, T):
                 HH1 = HH[rank1, :][:, rank1]
                 HT1 = HT[rank1, :]
 
-                P = np.linalg.inv(HH1)
-                Bt1 = np.dot(P, HT1)
-                R = np.ones((N,)) - np.einsum('ij,ji->i', np.dot(H1, P), H1.T)
+                Bt1 = np.linalg.lstsq(HH1, HT1)[0]
+                R = np.ones((N,)) - np.einsum('ij,ji->i', H1, np.linalg.lstsq(HH1, H1.T)[0])
                 Y1 = np.dot(H1, Bt1)
                 err = self._error(T, Y1, R)
                 e[idx] = err + idx * penalty
-- 
2.43.0


From 3f575378a0ba609c81df794fd5c9a286afde63f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 50/52] fix: asynchronous calls hang or return incomplete files
 when a reader or writer process dies

---
 hpelm/hp_elm.py | 66 +++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 61 insertions(+), 5 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 013178c..af71e58 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -7,14 +7,32 @@ Created on Mon Oct 27 17:48:33 2014
 
 import numpy as np
 import multiprocessing as mp
+from functools import wraps
 from six.moves import xrange
 from six import string_types
+from six.moves.queue import Empty, Full
 from time import time
 from .modules import make_hdf5, _ireader, _iwriter, _prepare_fHH, _write_fHH
 from tables import open_file
 from .elm import ELM
 
 
+def _async(method):
+    """Leaves no I/O processes behind an asyncronous method that has failed.
+    """
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        self.io_processes = []
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            for process in self.io_processes:
+                process.terminate()
+                process.join()
+            raise
+    return wrapper
+
+
 class HPELM(ELM):
     """Interface for training High-Performance Extreme Learning Machines (HP-ELM).
 
@@ -493,6 +511,7 @@ class HPELM(ELM):
         self.add_data_async(fX, fT, istart=istart, icount=icount)
         self.nnet.solve()
 
+    @_async
     def add_data_async(self, fX, fT, istart=0, icount=np.inf, fHH=None, fHT=None):
         """Version of `add_data()` with asyncronous I/O. See `add_data()` for reference.
 
@@ -531,11 +550,13 @@ class HPELM(ELM):
         readerX = mp.Process(target=_ireader, args=(fX, qX_in, qX_out))
         readerX.daemon = True
         readerX.start()
+        self.io_processes.append(readerX)
         qT_in = mp.Queue()
         qT_out = mp.Queue(1)
         readerT = mp.Process(target=_ireader, args=(fT, qT_in, qT_out))
         readerT.daemon = True
         readerT.start()
+        self.io_processes.append(readerT)
 
         # main loop over all the data
         t = time()
@@ -549,8 +570,8 @@ class HPELM(ELM):
             qT_in.put((start_next, stop_next))
 
             if b > 0:  # first iteration only prefetches data
-                Xb = qX_out.get()
-                Tb = qT_out.get()
+                Xb = self._io_get(qX_out, readerX)
+                Tb = self._io_get(qT_out, readerT)
                 if self.classification == "wc":
                     wc_vector = self.wc[np.where(Tb == 1)[1]]  # weights for samples in the batch
 
@@ -565,6 +586,7 @@ class HPELM(ELM):
         # close async reader and writer
         readerX.join()
         readerT.join()
+        self._check_io()
 
         # if storing output to disk
         if fHH is not None and fHT is not None:
@@ -572,6 +594,7 @@ class HPELM(ELM):
             HH[np.diag_indices_from(HH)] -= self.nnet.norm  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
+    @_async
     def predict_async(self, fX, fY, istart=0, icount=np.inf):
         """Version of `predict()` with asyncronous I/O. See `predict()` for reference.
 
@@ -595,10 +618,13 @@ class HPELM(ELM):
         reader = mp.Process(target=_ireader, args=(fX, qr_in, qr_out))
         reader.daemon = True
         reader.start()
+        self.io_processes.append(reader)
         qw_in = mp.Queue(1)
+        qw_in.cancel_join_thread()  # do not wait for a dead writer at exit
         writer = mp.Process(target=_iwriter, args=(fY, qw_in))
         writer.daemon = True
         writer.start()
+        self.io_processes.append(writer)
 
         t = time()
         t0 = time()
@@ -610,11 +636,11 @@ class HPELM(ELM):
 
             if b > 0:  # first iteration only prefetches data
                 # get data
-                Xb = qr_out.get()
+                Xb = self._io_get(qr_out, reader)
                 # process data
                 Yb = self.nnet._predict(Xb)
                 # save data
-                qw_in.put((Yb, start-istart, stop-istart))
+                self._io_put(qw_in, (Yb, start-istart, stop-istart), writer)
 
             start = start_next
             stop = stop_next
@@ -624,9 +650,39 @@ class HPELM(ELM):
                 print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
-        qw_in.put(None)
+        self._io_put(qw_in, None, writer)
         reader.join()
         writer.join()
+        self._check_io()
+
+    def _check_io(self):
+        """Asyncronous I/O processes must have completed their work.
+        """
+        for process in self.io_processes:
+            if process.exitcode != 0:
+                raise IOError("Asyncronous I/O process has died with exit code %s" % process.exitcode)
+
+    def _io_get(self, queue, process):
+        """Next item from an asyncronous I/O process, fails if that process has died.
+        """
+        while True:
+            alive = process.is_alive()  # checked first, a finished process may have left an item
+            try:
+                return queue.get(timeout=1)
+            except Empty:
+                if not alive:
+                    raise IOError("Asyncronous I/O process has died with exit code %s" % process.exitcode)
+
+    def _io_put(self, queue, item, process):
+        """Send an item to an asyncronous I/O process, fails if that process has died.
+        """
+        while True:
+            alive = process.is_alive()
+            try:
+                return queue.put(item, timeout=1)
+            except Full:
+                if not alive:
+                    raise IOError("Asyncronous I/O process has died with exit code %s" % process.exitcode)
 
     def _close_hdf5(self, fname):
         """Close own handles of an HDF5 file before writing to it, like those left by `error()`.
-- 
2.43.0


From 321d43d798cb5747ffa845ece6a07603eb77da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:26 +0000
Subject: [PATCH 51/52] fix: error() of boolean and small integer arrays is
 computed in double precision

---
 hpelm/elm.py    | 2 +-
 hpelm/hp_elm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 5fa9de1..5167391 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -498,7 +498,7 @@ class ELM(object):
             elif self.classification == "ml":
                 err = np.not_equal(Y > 0.5, T > 0.5).mean()
             else:
-                err = np.mean((Y - T)**2)
+                err = np.mean(np.subtract(Y, T, dtype=np.float64)**2)  # differences of small integers overflow
         else:  # LOO_PRESS error
             if self.classification == "c":
                 err = np.not_equal(Y.argmax(1), T.argmax(1)) / R.ravel()
diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index af71e58..5060824 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -405,7 +405,7 @@ class HPELM(ELM):
                 stop = min((b+1)*self.batch + istart, icount + istart)
                 Tb = T[start:stop]
                 Yb = Y[start:stop]
-                errb = np.mean((Tb - Yb)**2)
+                errb = np.mean(np.subtract(Tb, Yb, dtype=np.float64)**2)  # differences of small integers overflow
                 err += errb * float(stop-start)/icount
 
         return err
-- 
2.43.0


From 39d41255a61e49620a8503fc90ba9e5776563617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:59 +0000
Subject: [PATCH 52/52] fix: feature ranking of boolean and small integer
 matrices

---
 hpelm/modules/mrsr.py  | 2 ++
 hpelm/modules/mrsr2.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index 46afee2..097bafd 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -25,6 +25,8 @@ def mrsr(X, T, kmax):
      11-15, 2005. LNCS 3697, pp. 97-102.
     """
 
+    if X.dtype.kind in "biu":  # products of boolean or small integer matrices are not correlations
+        X = X.astype(np.float64)
     n,m = X.shape
     n,p = T.shape
     kmax = min(kmax, m)
diff --git a/hpelm/modules/mrsr2.py b/hpelm/modules/mrsr2.py
index 5a3039e..4edee74 100644
--- a/hpelm/modules/mrsr2.py
+++ b/hpelm/modules/mrsr2.py
@@ -36,6 +36,8 @@ def mrsr2(X, T, kmax, norm=2):
     ins = X.shape[1]
     outs = T.shape[1]
     X = np.array(X, order='F')  # Fortran ordering is good for operating columns 
+    if X.dtype.kind in "biu":  # products of boolean or small integer matrices are not correlations
+        X = X.astype(np.float64)
     XA = np.empty(X.shape, order='F')
     XX = np.dot(X.T, X)        
     XT = np.dot(X.T, T)
-- 
2.43.0

