From 04946a65822378c4425c4585a43323779707a6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 01/82] fix: read saved extractions and traces as text, and
 close the file

readstr() parses str, so read() raised TypeError for every .srmise/trace file.
---
 src/diffpy/srmise/peakextraction.py | 4 +++-
 src/diffpy/srmise/srmiselog.py      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 48e3419..c160738 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -316,7 +316,9 @@ class PeakExtraction(object):
         self
         """
         try:
-            self.readstr(open(filename, "rb").read())
+            with open(filename, "r") as f:
+                datastring = f.read()
+            self.readstr(datastring)
         except SrMiseDataFormatError as err:
             logger.exception("")
             basename = os.path.basename(filename)
diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index d5fcd6f..fa10cae 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -247,7 +247,9 @@ class TracePeaks(object):
         "recursion" - The recursion level of mc
         """
         try:
-            return self.readstr(open(filename, "rb").read())
+            with open(filename, "r") as f:
+                datastring = f.read()
+            return self.readstr(datastring)
         except SrMiseDataFormatError as err:
             logger.exception("")
             basename = os.path.basename(filename)
-- 
2.43.0


From fa6fd4815c391339ea3de0fd4ef2a7266167a966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 02/82] fix: recognise the effective_dy column of a .srmise
 file

The pattern '\edy' is an invalid escape, so readstr() always raised re.error.
---
 src/diffpy/srmise/peakextraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index c160738..6b5600d 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -388,7 +388,7 @@ class PeakExtraction(object):
         res = re.search(r"\bdy\b", start_data_info)
         if res:
             hasdy = True
-        res = re.search(r"\edy\b", start_data_info)
+        res = re.search(r"\bedy\b", start_data_info)
         if res:
             hasedy = True
 
-- 
2.43.0


From a50229a5e126fe6f47a07b05b43e09ed8efb29de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 03/82] fix: make the model evaluators available from their
 package

readstr() and ModelCluster.factory() look AIC/AICc up in
diffpy.srmise.modelevaluators, which exported nothing.
---
 src/diffpy/srmise/modelevaluators/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/diffpy/srmise/modelevaluators/__init__.py b/src/diffpy/srmise/modelevaluators/__init__.py
index 0efb8dc..c82f934 100644
--- a/src/diffpy/srmise/modelevaluators/__init__.py
+++ b/src/diffpy/srmise/modelevaluators/__init__.py
@@ -13,3 +13,8 @@
 ##############################################################################
 
 # __init__.py file for modelevalutors module
+
+from diffpy.srmise.modelevaluators.aic import AIC
+from diffpy.srmise.modelevaluators.aicc import AICc
+
+__all__ = ["AIC", "AICc"]
-- 
2.43.0


From f37ebb86eb74486ab466f9948613fed0bebdfc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 04/82] fix: report every malformed .srmise file as a data
 format error

A row with missing fields was accepted (arrays of unequal length), and other
damage escaped as UnboundLocalError, KeyError, NameError, ... leaving a
half-initialised object.
---
 src/diffpy/srmise/peakextraction.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 6b5600d..b9caa21 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -319,7 +319,7 @@ class PeakExtraction(object):
             with open(filename, "r") as f:
                 datastring = f.read()
             self.readstr(datastring)
-        except SrMiseDataFormatError as err:
+        except (SrMiseDataFormatError, UnicodeDecodeError) as err:
             logger.exception("")
             basename = os.path.basename(filename)
             emsg = ("Could not open '%s' due to unsupported file format " + "or corrupted data. [%s]") % (
@@ -336,7 +336,21 @@ class PeakExtraction(object):
         ----------
         datastring : array-like
             The raw data to read
+
+        Raises SrMiseDataFormatError, leaving a cleared object, if datastring
+        is incomplete or corrupted.
         """
+        try:
+            self._readstr(datastring)
+        except Exception as err:
+            self.clear()
+            if isinstance(err, SrMiseDataFormatError):
+                raise
+            emsg = "Incomplete or corrupted data -- %s: %s" % (type(err).__name__, err)
+            raise SrMiseDataFormatError(emsg) from err
+
+    def _readstr(self, datastring):
+        """Initialize members from string, with no cleanup on failure."""
         from diffpy.srmise.basefunction import BaseFunction
 
         self.clear()
@@ -510,6 +524,7 @@ class PeakExtraction(object):
                 split_line = line.split()
                 if len(arrays) != len(split_line):
                     emsg = "Number of value fields does not match that given by '%s'" % start_data_info
+                    raise IndexError(emsg)
                 for a, v in zip(arrays, line.split()):
                     a.append(float(v))
         except (ValueError, IndexError) as err:
-- 
2.43.0


From 99231b4b050d512bc8e203e19ee9d1d9043e60dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 05/82] fix: pass a message, not an exception, to
 SrMiseDataFormatError

str() of the resulting error raised TypeError.
---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index c1a64c5..33f5014 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -760,7 +760,7 @@ class ModelCluster(object):
                 for a, v in zip(arrays, line.split()):
                     a.append(float(v))
         except (ValueError, IndexError) as err:
-            raise SrMiseDataFormatError(err)
+            raise SrMiseDataFormatError(str(err))
         if hasr:
             r_data = np.array(r_data)
         if hasy:
-- 
2.43.0


From 8b8b2221c34ec590ad1a423036ff5590ad967f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 06/82] fix: reject a saved cluster whose data has been cut
 short

---
 src/diffpy/srmise/modelcluster.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 33f5014..da50d67 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -768,6 +768,10 @@ class ModelCluster(object):
         if hasdy:
             y_error = np.array(y_error)
 
+        if cluster_slice.stop is not None and cluster_slice.stop > len(r_data):
+            emsg = "Cluster %s extends past its %i data points." % (cluster_slice, len(r_data))
+            raise SrMiseDataFormatError(emsg)
+
         return ModelCluster(
             model,
             baseline,
-- 
2.43.0


From ad95b0d7715c2a164eaf76e1dc234978100940a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 07/82] fix: let PeakExtraction itself be saved and loaded

writemetadata() returned None, which cannot be joined, and readmetadata() did
not accept the argument it is called with.
---
 src/diffpy/srmise/peakextraction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index b9caa21..5b593b1 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -724,10 +724,10 @@ class PeakExtraction(object):
 
     def writemetadata(self):
         """Return string for metadata not defined by srmise class."""
-        return
+        return ""
 
-    def readmetadata(self):
-        """Return string for metadata not defined by srmise class."""
+    def readmetadata(self, metastr):
+        """Read metadata not defined by srmise class from string."""
         return
 
     def writesummary(self):
-- 
2.43.0


From a53007d38855db44a06c19469da71f047c007ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 08/82] fix: save and load an extraction whose variables are
 still unset

Every other extraction variable may be None in a .srmise file, but cres=None
could not be written and ModelEvaluator=None could not be read.
---
 src/diffpy/srmise/peakextraction.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 5b593b1..bd7dbb7 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -473,15 +473,22 @@ class PeakExtraction(object):
 
         # cres
         rx = {"f": r"[-+]?(\d+(\.\d*)?|\d*\.\d+)([eE][-+]?\d+)?"}
-        regexp = r"\bcres *= *(%(f)s)\b" % rx
-        res = re.search(regexp, srmisemetadata, re.I)
-        self.cres = float(res.groups()[0])
+        if re.search(r"^cres=None$", srmisemetadata, re.M):
+            self.cres = None
+        else:
+            regexp = r"\bcres *= *(%(f)s)\b" % rx
+            res = re.search(regexp, srmisemetadata, re.I)
+            self.cres = float(res.groups()[0])
 
         # error_method
         res = re.search(r"^ModelEvaluator=(.*)$", srmisemetadata, re.M)
-        __import__("diffpy.srmise.modelevaluators")
-        module = sys.modules["diffpy.srmise.modelevaluators"]
-        self.error_method = getattr(module, res.groups()[0].strip())
+        error_method = res.groups()[0].strip()
+        if error_method == "None":
+            self.error_method = None
+        else:
+            __import__("diffpy.srmise.modelevaluators")
+            module = sys.modules["diffpy.srmise.modelevaluators"]
+            self.error_method = getattr(module, error_method)
 
         # range
         res = re.search(r"^Range=(.*)$", srmisemetadata, re.M)
@@ -662,7 +669,10 @@ class PeakExtraction(object):
             lines.append("pf=%s" % repr([safepf.index(p) for p in self.pf]))
 
         # Clustering resolution
-        lines.append("cres=%g" % self.cres)
+        if self.cres is None:
+            lines.append("cres=None")
+        else:
+            lines.append("cres=%g" % self.cres)
         # Model evaluator
         if self.error_method is None:
             lines.append("ModelEvaluator=None")
-- 
2.43.0


From 2b4613936162953fd91c92b56e00cf862f2a8d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 09/82] fix: save the extraction range of any array-like in a
 loadable form

The repr of a numpy array cannot be evaluated by readstr().
---
 src/diffpy/srmise/peakextraction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index bd7dbb7..3cedea7 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -679,7 +679,10 @@ class PeakExtraction(object):
         else:
             lines.append("ModelEvaluator=%s" % self.error_method.__name__)
         # Extraction range
-        lines.append("Range=%s" % repr(self.rng))
+        if self.rng is None:
+            lines.append("Range=None")
+        else:
+            lines.append("Range=%s" % repr(list(self.rng)))
 
         # Everything not defined by PeakExtraction
         lines.append("# Metadata")
-- 
2.43.0


From 1c978b4eed06ef0612f9be6ec91b41c8d03ffbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 10/82] fix: read back cluster regions written with numpy >= 2

repr(slice(np.int64(0), ...)) refers to np, unknown in srmiselog.
---
 src/diffpy/srmise/srmiselog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index fa10cae..26c1cf1 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -42,6 +42,8 @@ import logging
 import os.path
 import re
 
+import numpy as np  # noqa: F401  Clusters in a trace may be written as numpy scalars.
+
 from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseFileError, SrMiseLogError
 
 # Default settings ###
-- 
2.43.0


From 1f6c77c8cf9510ba8949e51e991b7275cfd7ec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 11/82] fix: return the counter and recursion level stored in a
 trace file

Those of the tracer doing the reading were returned instead.
---
 src/diffpy/srmise/srmiselog.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 26c1cf1..495ab49 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -300,14 +300,14 @@ class TracePeaks(object):
 
         res = re.search(r"^recursion=(.*)$", header, re.M)
         if res:
-            eval(res.groups()[0].strip())
+            recursion = eval(res.groups()[0].strip())
         else:
             emsg = "Required field 'recursion' not found."
             raise SrMiseDataFormatError(emsg)
 
         res = re.search(r"^counter=(.*)$", header, re.M)
         if res:
-            eval(res.groups()[0].strip())
+            counter = eval(res.groups()[0].strip())
         else:
             emsg = "Required field 'counter' not found."
             raise SrMiseDataFormatError(emsg)
@@ -315,8 +315,8 @@ class TracePeaks(object):
         return {
             "mc": mc,
             "clusters": clusters,
-            "recursion": self.recursion,
-            "counter": self.counter,
+            "recursion": recursion,
+            "counter": counter,
         }
 
     def pushr(self):
-- 
2.43.0


From 91dd6e3480cd60dc63c20b7ff71faeaea80b5498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 12/82] fix: report every malformed trace file as a data format
 error

---
 src/diffpy/srmise/srmiselog.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 495ab49..a5a3b0b 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -252,7 +252,7 @@ class TracePeaks(object):
             with open(filename, "r") as f:
                 datastring = f.read()
             return self.readstr(datastring)
-        except SrMiseDataFormatError as err:
+        except (SrMiseDataFormatError, UnicodeDecodeError) as err:
             logger.exception("")
             basename = os.path.basename(filename)
             emsg = ("Could not open '%s' due to unsupported file format " + "or corrupted data. [%s]") % (
@@ -273,7 +273,19 @@ class TracePeaks(object):
         "counter" - The count when object was created
         "mc" - A ModelCluster instance
         "recursion" - The recursion level of mc
+
+        Raises SrMiseDataFormatError if datastring is incomplete or corrupted.
         """
+        try:
+            return self._readstr(datastring)
+        except SrMiseDataFormatError:
+            raise
+        except Exception as err:
+            emsg = "Incomplete or corrupted data -- %s: %s" % (type(err).__name__, err)
+            raise SrMiseDataFormatError(emsg) from err
+
+    def _readstr(self, datastring):
+        """Return dictionary described in readstr()."""
         # find where the ModelCluster section starts
         res = re.search(r"^#+ ModelCluster\s*(?:#.*\s+)*", datastring, re.M)
         if res:
-- 
2.43.0


From 5b88587ee5d8ae6d8494450da16141f18237b78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 13/82] fix: make a stored trace independent of the models
 still being fit

Only the first cluster was copied, and adding the initial peaks back changed
the data shared with every copy in place.
---
 src/diffpy/srmise/modelcluster.py | 2 +-
 src/diffpy/srmise/srmiselog.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index da50d67..d93e330 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -527,7 +527,7 @@ class ModelCluster(object):
         None
         """
         self.replacepeaks(peaks)
-        self.y_data += peaks.value(self.r_data)
+        self.y_data = self.y_data + peaks.value(self.r_data)
         self.y_cluster = self.y_data[self.slice]
 
     def writestr(self, **kwds):
diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index a5a3b0b..760ea19 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -207,7 +207,7 @@ class TracePeaks(object):
         for m in args:
             clusters.append(m.slice)
         for m in args[1:]:
-            mc.replacepeaks(m.model)
+            mc.replacepeaks(m.model.copy())
         return {
             "mc": mc,
             "clusters": clusters,
-- 
2.43.0


From 45ade5b1faee3026c272b4c2e2492fa0e130f7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 14/82] fix: keep peak and baseline functions in a reproducible
 order

Sets of functions are ordered by memory address.  estimatepeak() uses the
first peak function of a cluster, so with several of them the extracted peaks
(and the indices in saved files) differed between identical runs.
---
 src/diffpy/srmise/modelcluster.py      | 4 ++--
 src/diffpy/srmise/pdfpeakextraction.py | 4 ++--
 src/diffpy/srmise/peakextraction.py    | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index d93e330..9019c19 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -546,7 +546,7 @@ class ModelCluster(object):
         else:
             pfbaselist = [p.owner() for p in self.model]
             pfbaselist.extend(self.peak_funcs)
-            pfbaselist = list(set(pfbaselist))
+            pfbaselist = list(dict.fromkeys(pfbaselist))
             pfbaselist = BaseFunction.safefunctionlist(pfbaselist)
             writepf = True
 
@@ -869,7 +869,7 @@ class ModelCluster(object):
         else:  # Only m2 has entries, or both are empty
             new_model = m2.model.copy()
 
-        peak_funcs = list(set(m1.peak_funcs) | set(m2.peak_funcs))  # "Union"
+        peak_funcs = list(dict.fromkeys([*m1.peak_funcs, *m2.peak_funcs]))  # "Union"
         return ModelCluster(
             new_model,
             m1.baseline,
diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index 3744bb8..98af85e 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -858,8 +858,8 @@ class PDFPeakExtraction(PeakExtraction):
             allpf.extend([p.owner() for p in self.extracted.model])
             if self.extracted.baseline is not None:
                 allbf.append(self.extracted.baseline.owner())
-        allpf = list(set(allpf))
-        allbf = list(set(allbf))
+        allpf = list(dict.fromkeys(allpf))
+        allbf = list(dict.fromkeys(allbf))
         safepf = BaseFunction.safefunctionlist(allpf)
         safebf = BaseFunction.safefunctionlist(allbf)
 
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 3cedea7..fdb14cf 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -625,8 +625,8 @@ class PeakExtraction(object):
             allpf.extend([p.owner() for p in self.extracted.model])
             if self.extracted.baseline is not None:
                 allbf.append(self.extracted.baseline.owner())
-        allpf = list(set(allpf))
-        allbf = list(set(allbf))
+        allpf = list(dict.fromkeys(allpf))
+        allbf = list(dict.fromkeys(allbf))
         safepf = BaseFunction.safefunctionlist(allpf)
         safebf = BaseFunction.safefunctionlist(allbf)
 
-- 
2.43.0


From e08af3da90150a064411f74cbbea0a63fccc9a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 15/82] fix: write a ModelCluster which has no baseline

---
 src/diffpy/srmise/modelcluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 9019c19..d6566af 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -554,7 +554,9 @@ class ModelCluster(object):
             blfbaselist = kwds["blfbaselist"]
             writeblf = False
         else:
-            blfbaselist = BaseFunction.safefunctionlist([self.baseline.owner()])
+            blfbaselist = []
+            if self.baseline is not None:
+                blfbaselist = BaseFunction.safefunctionlist([self.baseline.owner()])
             writeblf = True
 
         lines = []
-- 
2.43.0


From 81439ea3d696d2b9573ca2ce4766eadce9c8c99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 16/82] fix: keep the first character of a baseline file's data

FromSequence.readxy() skipped past it, so '12.5 1' was read as x=2.5.
---
 src/diffpy/srmise/baselines/fromsequence.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/baselines/fromsequence.py b/src/diffpy/srmise/baselines/fromsequence.py
index 6333977..c9875e5 100644
--- a/src/diffpy/srmise/baselines/fromsequence.py
+++ b/src/diffpy/srmise/baselines/fromsequence.py
@@ -254,7 +254,8 @@ class FromSequence(BaselineFunction):
 
         # TODO: Make this safer
         try:
-            datastring = open(filename, "rb").read()
+            with open(filename, "rb") as f:
+                datastring = f.read()
         except Exception as err:
             raise err
 
@@ -262,7 +263,7 @@ class FromSequence(BaselineFunction):
 
         res = re.search(rb"^[^#]", datastring, re.M)
         if res:
-            datastring = datastring[res.end() :].strip()
+            datastring = datastring[res.start() :].strip()
 
         x = []
         y = []
-- 
2.43.0


From 2318b9c23df15af17733adea7c656775a9f4958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 17/82] fix: load saved AICs under Python 3

np.sort() does not accept a dict view.
---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 91cd34c..b4915a3 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -163,7 +163,7 @@ class MultimodelSelection(PeakStability):
         em = self.ppe.error_method
 
         self.aics = aics_in
-        self.dgs = np.sort(aics_in.keys())
+        self.dgs = np.sort(list(aics_in.keys()))
 
         for i, dg in enumerate(self.dgs):
             self.dgs_idx[dg] = i
-- 
2.43.0


From 69606a2b3201fb97d6df6509d578e4ac10dbd981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 18/82] fix: leave the covariance undefined when the fit cannot
 determine it

leastsq() returns None for a singular matrix, which raised TypeError and lost
the whole extraction.
---
 src/diffpy/srmise/modelparts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index d4d17ae..f168517 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -211,7 +211,11 @@ class ModelParts(list):
             pcov = f[1]
             fvec = f[2]["fvec"]
             dof = len(r) - len(freepars)
-            cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
+            if pcov is None:
+                # Singular matrix, nothing is known about the uncertainties.
+                cov.clear()
+            else:
+                cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
             try:
                 cov.transform(in_format="internal", out_format=cov_format)
             except SrMiseUndefinedCovarianceError:
-- 
2.43.0


From a77e152378ae299b57a44ccb403fb58d0c5ac025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 19/82] fix: do not change the given baseline and initial peaks
 by fitting them

The baseline (and the initial peaks, in fit_single) were refined in place, so
repeating an extraction started from different values, and results obtained one
after the other (e.g. by PeakStability.run) all shared the last baseline.
---
 src/diffpy/srmise/peakextraction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index fdb14cf..cec81dc 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -862,7 +862,7 @@ class PeakExtraction(object):
 
         # Make sure all required extraction variables have some value
         self.defaultvars()
-        bl = self.baseline
+        bl = self.baseline.copy()
 
         # Copy initial_peaks
         # While it would be nice to integrate them into extracted model naturally
@@ -1412,8 +1412,8 @@ class PeakExtraction(object):
 
         # Set up ModelCluster
         ext = ModelCluster(
-            self.initial_peaks,
-            self.baseline,
+            self.initial_peaks.copy(),
+            self.baseline.copy(),
             x,
             y,
             dy,
-- 
2.43.0


From 3b1413979769e082657ce5a2aca96d13ee10e93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 20/82] fix: complete a partial range without changing the
 caller's sequence

Reusing a list such as [None, 5.0] silently applied the limits of the first
dataset to the next one, and a tuple raised TypeError.
---
 src/diffpy/srmise/peakextraction.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index cec81dc..0695bb3 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -221,11 +221,11 @@ class PeakExtraction(object):
 
         if self.rng is None or "rng" in args:
             self.rng = [self.x[0], self.x[-1]]
-        else:
-            if self.rng[0] is None:
-                self.rng[0] = self.x[0]
-            if self.rng[1] is None:
-                self.rng[1] = self.x[-1]
+        elif self.rng[0] is None or self.rng[1] is None:
+            self.rng = [
+                self.x[0] if self.rng[0] is None else self.rng[0],
+                self.x[-1] if self.rng[1] is None else self.rng[1],
+            ]
 
         # Set baseline where the type is given, but parameters must be estimated.
         if hasattr(self.baseline, "estimate_parameters"):
-- 
2.43.0


From c6322bf28b0c21a2df527d9a57afabe7268c5587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 21/82] fix: do not expose stored results to changes of the
 current model

animate_probs() replaces the peaks of the current model, which overwrote the
stored models themselves.
---
 src/diffpy/srmise/peakstability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 77e3928..582b36d 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -146,8 +146,8 @@ class PeakStability:
             self.ppe.setvars(quiet=True, effective_dy=result[0] * np.ones(len(self.ppe.x)))
             (r, y, dr, dy) = self.ppe.resampledata(result[3])
             self.ppe.extracted = ModelCluster(
-                result[1],
-                result[2],
+                result[1].copy(),
+                None if result[2] is None else result[2].copy(),
                 r,
                 y,
                 dy,
-- 
2.43.0


From 81ddd2f15ae35bded5fc5f937b7210e4102d5213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 22/82] fix: use the proper keyword to restore a baseline in
 PeakStability.load()

---
 src/diffpy/srmise/peakstability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 582b36d..ab3fe09 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -60,7 +60,7 @@ class PeakStability:
                 if r[2] is not None:
                     kwds = r[2]
                     if hasattr(bl, "estimate_parameters"):
-                        r[2] = bl.actualize(default_input="internal", **kwds)
+                        r[2] = bl.actualize(in_format="internal", **kwds)
                     else:
                         r[2] = bl.owner().actualize(in_format="internal", **kwds)
         finally:
-- 
2.43.0


From a1b0b72ef78fda82a266a7e199b832a467fef9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 23/82] fix: do not destroy a saved PeakStability file when
 serialisation fails

The file was truncated before its new content had been prepared.
---
 src/diffpy/srmise/peakstability.py | 43 +++++++++++++++---------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index ab3fe09..55c6899 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -73,28 +73,27 @@ class PeakStability:
             import cPickle as pickle
         except ImportError:
             import pickle
-        out_s = open(filename, "wb")
-        try:
-            # Write to the stream
-            outstr = self.ppe.writestr()
-
-            # ugly kluge to let FromSequence pickle
-            # (it stores xyrepr() in metadict)
-            results2 = []
-            for r in self.results:
-                if r[2] is None:
-                    bldict = None
-                else:
-                    bldict = {
-                        "pars": r[2].pars,
-                        "free": r[2].free,
-                        "removable": r[2].removable,
-                        "static_owner": r[2].static_owner,
-                    }
-                results2.append([r[0], r[1], bldict, r[3]])
-            pickle.dump([results2, outstr], out_s)
-        finally:
-            out_s.close()
+        outstr = self.ppe.writestr()
+
+        # ugly kluge to let FromSequence pickle
+        # (it stores xyrepr() in metadict)
+        results2 = []
+        for r in self.results:
+            if r[2] is None:
+                bldict = None
+            else:
+                bldict = {
+                    "pars": r[2].pars,
+                    "free": r[2].free,
+                    "removable": r[2].removable,
+                    "static_owner": r[2].static_owner,
+                }
+            results2.append([r[0], r[1], bldict, r[3]])
+        bytes = pickle.dumps([results2, outstr])
+
+        # Write to the stream
+        with open(filename, "wb") as out_s:
+            out_s.write(bytes)
 
     def plotseries(self, style="o", **kwds):
         plt.figure()
-- 
2.43.0


From 47ab0da1ea9c3712ffbef37d6655388ae6db0850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 24/82] fix: close files even when writing or reading them
 fails

After a failed write (e.g. disk full) the abandoned file object still held
buffered data, which was flushed when it was finally collected -- possibly on
top of a later, successful save of the same file.
---
 src/diffpy/srmise/multimodelselection.py | 10 ++++------
 src/diffpy/srmise/pdfdataset.py          |  5 ++---
 src/diffpy/srmise/pdfpeakextraction.py   |  5 ++---
 src/diffpy/srmise/peakextraction.py      |  5 ++---
 src/diffpy/srmise/srmiselog.py           |  5 ++---
 5 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index b4915a3..70cb800 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -134,9 +134,8 @@ class MultimodelSelection(PeakStability):
                 import cPickle as pickle
             except ImportError:
                 import pickle
-            out_s = open(filename, "wb")
-            pickle.dump(aics_out, out_s)
-            out_s.close()
+            with open(filename, "wb") as out_s:
+                pickle.dump(aics_out, out_s)
 
         return
 
@@ -156,9 +155,8 @@ class MultimodelSelection(PeakStability):
             import cPickle as pickle
         except ImportError:
             import pickle
-        in_s = open(filename, "rb")
-        aics_in = pickle.load(in_s)
-        in_s.close()
+        with open(filename, "rb") as in_s:
+            aics_in = pickle.load(in_s)
 
         em = self.ppe.error_method
 
diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 3965fe3..3cfea0a 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -357,9 +357,8 @@ class PDFDataSet(PDFComponent):
         None
         """
         bytes = self.writeStr()
-        f = open(filename, "w")
-        f.write(bytes)
-        f.close()
+        with open(filename, "w") as f:
+            f.write(bytes)
         return
 
     def writeStr(self):
diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index 98af85e..11f8b8d 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -735,9 +735,8 @@ class PDFPeakExtraction(PeakExtraction):
         None
         """
         bytes = self.writepwastr(comments)
-        f = open(filename, "w")
-        f.write(bytes)
-        f.close()
+        with open(filename, "w") as f:
+            f.write(bytes)
         return
 
     def writepwastr(self, comments):
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 0695bb3..00013aa 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -577,9 +577,8 @@ class PeakExtraction(object):
             The name of the file to write
         """
         bytes = self.writestr()
-        f = open(filename, "w")
-        f.write(bytes)
-        f.close()
+        with open(filename, "w") as f:
+            f.write(bytes)
         return
 
     def writestr(self):
diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 760ea19..ddb2971 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -230,10 +230,9 @@ class TracePeaks(object):
     def write(self, trace):
         """Write current trace to file."""
         filename = "%s_%i" % (self.filebase, trace["counter"])
-        f = open(filename, "w")
         bytes = self.writestr(trace)
-        f.write(bytes)
-        f.close()
+        with open(filename, "w") as f:
+            f.write(bytes)
 
     def read(self, filename):
         """Read tracer ModelCluster from file.
-- 
2.43.0


From 89d79b0a7fef3cbd49a24e783fc75206bc5e384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 25/82] fix: order the Jacobian of a polynomial baseline like
 its parameters

pars[0] is the coefficient of the highest degree, but its derivative was given
as that of the constant, so fits of non-constant baselines went astray.
---
 src/diffpy/srmise/baselines/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/baselines/polynomial.py b/src/diffpy/srmise/baselines/polynomial.py
index df0f379..7006a6c 100644
--- a/src/diffpy/srmise/baselines/polynomial.py
+++ b/src/diffpy/srmise/baselines/polynomial.py
@@ -157,10 +157,10 @@ class Polynomial(BaselineFunction):
             return jacobian
 
         # The partial derivative with respect to the nth coefficient of a
-        # polynomial is just x^nth.
+        # polynomial is just x^nth, and pars[idx] is the (degree-idx)th one.
         for idx in range(self.npars):
             if free[idx]:
-                jacobian[idx] = np.power(r, idx)
+                jacobian[idx] = np.power(r, self.degree - idx)
         return jacobian
 
     def _transform_parametersraw(self, pars, in_format, out_format):
-- 
2.43.0


From 23c909b9451c2c00df8126e77f0ef1a81b436e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 26/82] fix: leave traced functions properly when they are
 interrupted

After an exception the tracer still believed it was inside an extraction, so
neither its counter nor its recursion level was ever reset again.
---
 src/diffpy/srmise/modelcluster.py      | 10 ++++++++--
 src/diffpy/srmise/pdfpeakextraction.py | 10 ++++++++--
 src/diffpy/srmise/peakextraction.py    | 12 +++++++++---
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index d6566af..3e03ae1 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1484,6 +1484,14 @@ class ModelCluster(object):
 
         tracer = srmiselog.tracer
         tracer.pushc()
+        try:
+            self._prune()
+        finally:
+            tracer.popc()
+
+    def _prune(self):
+        """Perform the pruning described in prune()."""
+        tracer = srmiselog.tracer
 
         y_nobl = self.y_cluster - self.valuebl()
         prune_mc = ModelCluster(
@@ -1652,8 +1660,6 @@ class ModelCluster(object):
         ]
         logger.info("\n".join(msg), self.model, self.quality().stat)
 
-        tracer.popc()
-
         return
 
 
diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index 11f8b8d..2ccc66e 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -360,6 +360,14 @@ class PDFPeakExtraction(PeakExtraction):
 
         tracer = srmiselog.tracer
         tracer.pushc()
+        try:
+            return self._extract(**kwds)
+        finally:
+            tracer.popc()
+
+    def _extract(self, **kwds):
+        """Perform the extraction described in extract()."""
+        tracer = srmiselog.tracer
 
         # Make sure all required extraction variables have some value
         self.defaultvars()
@@ -551,8 +559,6 @@ class PDFPeakExtraction(PeakExtraction):
         self.extraction_type = "extract"
         self.extracted = ext
 
-        tracer.popc()
-
         return cov
 
     def fit(self, **kwds):
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 00013aa..78463b3 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -858,6 +858,15 @@ class PeakExtraction(object):
         tracer = srmiselog.tracer
         tracer.pushc()
         tracer.pushr()
+        try:
+            return self._extract_single(recursion_depth)
+        finally:
+            tracer.popc()
+            tracer.popr()
+
+    def _extract_single(self, recursion_depth):
+        """Perform the extraction described in extract_single()."""
+        tracer = srmiselog.tracer
 
         # Make sure all required extraction variables have some value
         self.defaultvars()
@@ -1387,9 +1396,6 @@ class PeakExtraction(object):
         self.extraction_type = "extract_single"
         self.extracted = mclusters[0]
 
-        tracer.popc()
-        tracer.popr()
-
         if recursion_depth == 1:
             return cov
 
-- 
2.43.0


From 4eb35dad9904e68ae1b36c5f7c3570457ff5d3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 27/82] fix: fix the log message for a peak which cannot be
 scaled

The message had no placeholder, so logging printed a traceback instead.
---
 src/diffpy/srmise/peaks/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index 7e57c10..ec7315b 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -260,7 +260,7 @@ class Peak(ModelPart):
         try:
             adj_pars = self._owner.scale_at(self.pars, x, scale)
         except SrMiseScalingError as err:
-            logger.debug("Cannot scale peak:", err)
+            logger.debug("Cannot scale peak: %s", err)
             return False
 
         # Check if a fixed parameter was changed.
-- 
2.43.0


From b7ed205184995afa22def3cc6b0ea4029eb7c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 28/82] fix: rescale the remaining peaks in match_at() when
 some are fixed

Iterating over the tuple (self, scaled) either raised, which was taken to mean
that nothing could be scaled, or (with two peaks) paired peaks with peaks.
---
 src/diffpy/srmise/peaks/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index ec7315b..da00cc1 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -191,7 +191,7 @@ class Peaks(ModelParts):
                 self[:] = orig[:]
                 any_scaled = False
                 scale = (y - fixed_height) / (height - fixed_height)
-                for peak, s in (self, scaled):
+                for peak, s in zip(self, scaled):
                     if s:
                         # "or" is short-circuited, so scale_at() must be first
                         # to guarantee it is called.
-- 
2.43.0


From e37187e37964d2963f18109edae9858b8eba3c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 29/82] fix: report a failed fit without Jacobian like any
 other failed fit

Errors in the second call of leastsq() were not turned into SrMiseFitError.
---
 src/diffpy/srmise/modelparts.py | 45 +++++++++++++++++----------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index f168517..be55a76 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -131,28 +131,29 @@ class ModelParts(list):
             plt.ion()
 
         try:
-            f = leastsq(
-                self.residual,  # minimize this function
-                freepars,  # initial parameters
-                args=args,  # arguments to residual, residual_jacobian
-                Dfun=self.residual_jacobian,  # explicit Jacobian
-                col_deriv=True,  # order of derivatives in Jacobian
-                full_output=True,
-                maxfev=ntrials,
-            )
-        except NotImplementedError:
-            # TODO: Figure out if is worth checking for residual_jacobian
-            # before leastsq().  This exception will either occur almost never
-            # or extremely frequently, and the extra evaluations will add up.
-            logger.info("One or more functions do not define residual_jacobian().")
-            f = leastsq(
-                self.residual,  # minimize this function
-                freepars,  # initial parameters
-                args=args,  # arguments to residual
-                col_deriv=True,  # order of derivatives in Jacobian
-                full_output=True,
-                maxfev=ntrials,
-            )
+            try:
+                f = leastsq(
+                    self.residual,  # minimize this function
+                    freepars,  # initial parameters
+                    args=args,  # arguments to residual, residual_jacobian
+                    Dfun=self.residual_jacobian,  # explicit Jacobian
+                    col_deriv=True,  # order of derivatives in Jacobian
+                    full_output=True,
+                    maxfev=ntrials,
+                )
+            except NotImplementedError:
+                # TODO: Figure out if is worth checking for residual_jacobian
+                # before leastsq().  This exception will either occur almost never
+                # or extremely frequently, and the extra evaluations will add up.
+                logger.info("One or more functions do not define residual_jacobian().")
+                f = leastsq(
+                    self.residual,  # minimize this function
+                    freepars,  # initial parameters
+                    args=args,  # arguments to residual
+                    col_deriv=True,  # order of derivatives in Jacobian
+                    full_output=True,
+                    maxfev=ntrials,
+                )
         except Exception:
             # Sadly, KeyboardInterrupt, etc. is reraised as minpack.error
             # Not much I can do about that, though.
-- 
2.43.0


From 1f6097aceb9edae81d714b5d2cfb7851929cc4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 30/82] fix: let the command line create peak functions and
 model evaluators

Neither name was ever imported, so --peakfunction and --modelevaluator always
failed.
---
 src/diffpy/srmise/applications/extract.py | 36 +++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 3dd4eaa..333d410 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -33,6 +33,30 @@ def _baseline_namespace():
     }
 
 
+def _peakfunction_namespace():
+    """Return the peak function classes supported by the CLI."""
+    from diffpy.srmise.peaks.gaussian import Gaussian
+    from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
+    from diffpy.srmise.peaks.terminationripples import TerminationRipples
+
+    return {
+        "Gaussian": Gaussian,
+        "GaussianOverR": GaussianOverR,
+        "TerminationRipples": TerminationRipples,
+    }
+
+
+def _modelevaluator_namespace():
+    """Return the model evaluators supported by the CLI."""
+    from diffpy.srmise.modelevaluators.aic import AIC
+    from diffpy.srmise.modelevaluators.aicc import AICc
+
+    return {
+        "AIC": AIC,
+        "AICc": AICc,
+    }
+
+
 def main():
     """Default SrMise entry-point."""
     usage = (
@@ -447,7 +471,11 @@ def main():
 
     if options.peakfunction:
         try:
-            options.peakfunction = eval("peaks." + options.peakfunction)
+            options.peakfunction = eval(
+                options.peakfunction,
+                {"__builtins__": {}},
+                _peakfunction_namespace(),
+            )
         except Exception as err:
             print(err)
             print(
@@ -463,7 +491,11 @@ def main():
 
     if options.modelevaluator:
         try:
-            options.modelevaluator = eval("modelevaluators." + options.modelevaluator)
+            options.modelevaluator = eval(
+                options.modelevaluator,
+                {"__builtins__": {}},
+                _modelevaluator_namespace(),
+            )
         except Exception as err:
             print(err)
             print(
-- 
2.43.0


From 16bd4bc58f0998ba5c64bb56984dfcb151227509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 31/82] fix: do not use ndarray.ptp(), which numpy 2 removed

---
 src/diffpy/srmise/applications/extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 333d410..5679f28 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -594,7 +594,7 @@ def main():
         elif options.dg_mode == "max-fraction":
             pdict["effective_dy"] = options.dg * ext.y.max() * np.ones(len(ext.x))
         elif options.dg_mode == "ptp-fraction":
-            pdict["effective_dy"] = options.dg * ext.y.ptp() * np.ones(len(ext.y))
+            pdict["effective_dy"] = options.dg * np.ptp(ext.y) * np.ones(len(ext.y))
         elif options.dg_mode == "dG-fraction":
             pdict["effective_dy"] = options.dg * ext.dy
         if options.rng:
-- 
2.43.0


From f4117a0a64729140442a5857a8747a19b14bf16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 32/82] fix: let --no-nyquist and --no-scale override the
 defaults

---
 src/diffpy/srmise/applications/extract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 5679f28..9feb795 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -601,11 +601,11 @@ def main():
             pdict["rng"] = list(options.rng)
         if options.qmax:
             pdict["qmax"] = options.qmax if options.qmax == "automatic" else float(options.qmax)
-        if options.nyquist:
+        if options.nyquist is not None:
             pdict["nyquist"] = options.nyquist
         if options.supersample:
             pdict["supersample"] = options.supersample
-        if options.scale:
+        if options.scale is not None:
             pdict["scale"] = options.scale
         if options.modelevaluator:
             pdict["error_method"] = options.modelevaluator
-- 
2.43.0


From 5a4c5ddae0a7c3db7038377782938c9f96dcf310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 33/82] fix: report outputs which the command line cannot save

Failing to save one of the files lost the other one and the printed result.
---
 src/diffpy/srmise/applications/extract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 9feb795..ef8ccfa 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -624,14 +624,14 @@ def main():
         if options.savefile:
             try:
                 ext.write(options.savefile)
-            except SrMiseFileError as err:
+            except (OSError, SrMiseFileError) as err:
                 print(err)
                 print("Could not save result to '%s'." % options.savefile)
 
         if options.pwafile:
             try:
                 ext.writepwa(options.pwafile)
-            except SrMiseFileError as err:
+            except (OSError, SrMiseFileError) as err:
                 print(err)
                 print("Could not save pwa summary to '%s'." % options.pwafile)
 
-- 
2.43.0


From 3af8662191e33be942dbef33009dcf7eaa80e00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 34/82] fix: stop pruning when no removable peaks remain

If cleaning a fit removed the last other removable peak prune() failed with an
IndexError.
---
 src/diffpy/srmise/modelcluster.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 3e03ae1..3f92af7 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1601,6 +1601,10 @@ class ModelCluster(object):
                     if qual < best_qual:
                         check_models[i] = None
 
+            if len(check_qual) == 0:
+                # No removable peaks remain.
+                break
+
             arg = check_qual.argsort()
 
             msg = [
-- 
2.43.0


From 688b8b9449c37488a13c329fa415500b1483a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 35/82] fix: do not continue from the parameters of a reverted
 fit

prune() and augment() measured the quality of the model which fit() restored,
but continued with the abandoned one.  The result could be worse than the model
they started with.
---
 src/diffpy/srmise/modelcluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 3f92af7..d8f6b98 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1431,6 +1431,7 @@ class ModelCluster(object):
             for i in range(len(test_models)):
                 self.model = test_models[i]
                 self.fit()
+                test_models[i] = self.model  # replaced if the fit was reverted
                 test_quals[i] = self.quality()
 
             args = test_quals.argsort()
@@ -1589,6 +1590,7 @@ class ModelCluster(object):
                     logger.debug("\n".join(msg), i, best_model[i], prune_mc.model)
 
                     prune_mc.fit(ntrials=int(np.sqrt(len(y)) + 50), estimate=False)
+                    check_models[i] = prune_mc.model  # replaced if the fit was reverted
 
                     qual = prune_mc.quality(kshift=addpars)
                     check_qual = np.append(check_qual, qual)
-- 
2.43.0


From bef7a553e5201e63ac9c36fbd771c245542cdb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 36/82] fix: let augment() improve models with non-removable
 peaks

Peaks are only added, but replacing the last model tried by the best one failed
if any of its peaks were not removable.
---
 src/diffpy/srmise/modelcluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index d8f6b98..a6d2385 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1441,7 +1441,8 @@ class ModelCluster(object):
                 del source_model[args[-1]]
             else:
                 break  # Best possible model has been found.
-        self.replacepeaks(best_model, slice(len(self.model)))
+        self.model = best_model
+        self.model.sort(key="position")
 
         # TODO: Do I need this? If test_model contains peaks
         # by reference, the fit peaks will change as well.
-- 
2.43.0


From b46a3a5bb4f693e940dc2ef8363a625490525d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 37/82] fix: let ModelCovariance.transform() transform only the
 baseline

The parameter maps are keyed by non-negative indices, so parts="baseline" raised
a KeyError.
---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index a6d2385..b395661 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -173,7 +173,7 @@ class ModelCovariance(object):
             if kwds["parts"] == "peaks":
                 parts = range(len(self.model) - 1)
             elif kwds["parts"] == "baseline":
-                parts = [-1]
+                parts = [len(self.model) - 1]
             else:
                 parts = kwds["parts"]
         else:
-- 
2.43.0


From 3c4c8a6c5bf97afd9edc7e1483f4e53022b7f51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 38/82] fix: report undecodable PDF files like any other
 corrupted data

---
 src/diffpy/srmise/pdfdataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 3cfea0a..9ced37a 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -206,7 +206,7 @@ class PDFDataSet(PDFComponent):
             with open(filename, "rb") as file:
                 file_content = file.read().decode("utf-8")
             self.readStr(file_content)
-        except PDFDataFormatError as err:
+        except (PDFDataFormatError, UnicodeDecodeError) as err:
             basename = os.path.basename(filename)
             emsg = ("Could not open '%s' due to unsupported file format " + "or corrupted data. [%s]") % (
                 basename,
-- 
2.43.0


From 5e82a4ddf659d2054bcdbe0ada73113a21b91902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 39/82] fix: prefer the explicit scattering type of a PDF file

The type of a file depended on the name of the user who wrote it.
---
 src/diffpy/srmise/pdfdataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 9ced37a..4cf92b5 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -256,7 +256,10 @@ class PDFDataSet(PDFComponent):
 
         # parse header
         # stype
-        if re.search("(x-?ray|PDFgetX)", header, re.I):
+        res = re.search(r"^stype *= *([XN])\b", header, re.M)
+        if res:
+            self.stype = res.group(1)
+        elif re.search("(x-?ray|PDFgetX)", header, re.I):
             self.stype = "X"
         elif re.search("(neutron|PDFgetN)", header, re.I):
             self.stype = "N"
-- 
2.43.0


From 9ddb4718debe44f06c1b3876062a7da6357efa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 40/82] fix: do not extract with zero uncertainty if the PDF
 reports none

The uncertainties of a PDF which reports none are read as zeros, never as None,
so the command line's default was 0 rather than 5% of the maximum.
---
 src/diffpy/srmise/applications/extract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index ef8ccfa..773133d 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -583,10 +583,10 @@ def main():
         if options.dg_mode is None:
             if options.dg:
                 options.dg_mode = "absolute"
-            elif ext.dy is None:
-                options.dg_mode = "max-fraction"
-            else:
+            elif ext.dy is not None and np.all(ext.dy > 0):
                 options.dg_mode = "dG-fraction"
+            else:
+                options.dg_mode = "max-fraction"
         if options.dg is None:
             options.dg = dg_defaults[options.dg_mode]
         if options.dg_mode == "absolute":
-- 
2.43.0


From 6beee4f522388a9af06a035fc3d4d502b00b877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 41/82] fix: keep the uncertainties of a .srmise file unless
 others are requested

Options not given on the command line must not override those in the file.
---
 src/diffpy/srmise/applications/extract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 773133d..9094246 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -580,14 +580,14 @@ def main():
             pdict["baseline"] = options.baseline
         if options.cres:
             pdict["cres"] = options.cres
-        if options.dg_mode is None:
+        if options.dg_mode is None and (options.dg or ext.effective_dy is None):
             if options.dg:
                 options.dg_mode = "absolute"
             elif ext.dy is not None and np.all(ext.dy > 0):
                 options.dg_mode = "dG-fraction"
             else:
                 options.dg_mode = "max-fraction"
-        if options.dg is None:
+        if options.dg is None and options.dg_mode is not None:
             options.dg = dg_defaults[options.dg_mode]
         if options.dg_mode == "absolute":
             pdict["effective_dy"] = options.dg * np.ones(len(ext.x))
-- 
2.43.0


From 0ad5864f68ca26c9ea2a44d07531896e8cf9a105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 42/82] fix: animate probabilities with current matplotlib

---
 src/diffpy/srmise/multimodelselection.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 70cb800..bcee383 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -234,15 +234,15 @@ class MultimodelSelection(PeakStability):
         for dg in self.dgs[1:]:
             plt.ioff()
             line.set_ydata(self.aicprobs[dg])
-            vline.set_xdata(dg)
+            vline.set_xdata([dg, dg])
             if self.sortedprobs[dg][-1] != best_idx:
                 best_idx = self.sortedprobs[dg][-1]
                 s = slice(0, len(self.ppe.extracted.model))
                 self.ppe.extracted.replacepeaks(self.results[best_idx][1], s)
                 plt.cla()
                 plt.plot(*self.ppe.extracted.plottable())
-            dot.set_xdata(self.dgs[best_idx])
-            dot.set_ydata(self.aicprobs[dg][best_idx])
+            dot.set_xdata([self.dgs[best_idx]])
+            dot.set_ydata([self.aicprobs[dg][best_idx]])
             plt.ion()
             plt.draw()
             if step:
@@ -316,8 +316,8 @@ class MultimodelSelection(PeakStability):
                 [r, res] = tempcluster.plottable_residual()
                 plt.plot(*val)
                 plt.plot(r, minval - np.max(res) + res)
-            dot.set_xdata(bestclass_idx)
-            dot.set_ydata(self.classprobs[dg][bestclass_idx])
+            dot.set_xdata([bestclass_idx])
+            dot.set_ydata([self.classprobs[dg][bestclass_idx]])
             plt.ion()
             plt.draw()
             if step:
-- 
2.43.0


From 7dc745952a5ad6db1206f56b0c8d6d9263593ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 43/82] fix: do not share peaks of stored results with the
 animated model

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index bcee383..6a7799b 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -238,7 +238,7 @@ class MultimodelSelection(PeakStability):
             if self.sortedprobs[dg][-1] != best_idx:
                 best_idx = self.sortedprobs[dg][-1]
                 s = slice(0, len(self.ppe.extracted.model))
-                self.ppe.extracted.replacepeaks(self.results[best_idx][1], s)
+                self.ppe.extracted.replacepeaks(self.results[best_idx][1].copy(), s)
                 plt.cla()
                 plt.plot(*self.ppe.extracted.plottable())
             dot.set_xdata([self.dgs[best_idx]])
-- 
2.43.0


From 12d8f1ef0b5ec0f9e7c41ab68a36711fbb2985fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 44/82] fix: honour the uncertainties given to classbestdgs and
 modelbestdgs

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 6a7799b..f4a20f9 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -542,7 +542,7 @@ class MultimodelSelection(PeakStability):
         if dgs is None:
             dgs = self.dgs
         bestdgs = []
-        for dg in self.dgs:
+        for dg in dgs:
             if self.sortedclassprobs[dg][-1] == cls:
                 bestdgs.append(dg)
         return bestdgs
-- 
2.43.0


From ac7a733a2917cbdbad2b65042c8ca37845afe80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 45/82] fix: results of a run do not change with the current
 extraction

---
 src/diffpy/srmise/peakstability.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 55c6899..c8bad64 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -212,7 +212,9 @@ class PeakStability:
             dr = (self.ppe.extracted.r_cluster[-1] - self.ppe.extracted.r_cluster[0]) / (
                 len(self.ppe.extracted.r_cluster) - 1
             )
-            self.results.append([e, self.ppe.extracted.model, self.ppe.extracted.baseline, dr])
+            # Copies, since the extraction may still be changed by its user.
+            bl = self.ppe.extracted.baseline
+            self.results.append([e, self.ppe.extracted.model.copy(), None if bl is None else bl.copy(), dr])
 
         for e, r, bl, dr in self.results:
             print("---- Results for uncertainty %s ----" % e)
-- 
2.43.0


From 0709442cd9a8e5ab654a1944c8a8a305b580b187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 46/82] fix: use baselines without parameters given on the
 command line

---
 src/diffpy/srmise/applications/extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 9094246..c4cdeb5 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -576,7 +576,7 @@ def main():
         pdict = {}
         if options.peakfunction:
             pdict["pf"] = [options.peakfunction]
-        if options.baseline:
+        if options.baseline is not None:
             pdict["baseline"] = options.baseline
         if options.cres:
             pdict["cres"] = options.cres
-- 
2.43.0


From 9621e80f11fa0e97763e4b7832bec408441dc941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 47/82] fix: report peaks which cannot be scaled instead of
 scaling them to NaN

---
 src/diffpy/srmise/peaks/gaussian.py      | 3 +++
 src/diffpy/srmise/peaks/gaussianoverr.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 2c9b713..8237826 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -237,6 +237,9 @@ class Gaussian(PeakFunction):
             tpars = self.transform_parameters(tpars, in_format="mu_sigma_area", out_format="internal")
         except SrMiseTransformationError as err:
             raise SrMiseScalingError(str(err))
+        if not np.all(np.isfinite(tpars)):
+            emsg = "No peak of this shape is scaled by %s at %s." % (scale, x)
+            raise SrMiseScalingError(emsg)
         return tpars
 
     def _jacobianraw(self, pars, r, free):
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index c47191a..f550e9c 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -251,6 +251,9 @@ class GaussianOverR(PeakFunction):
             tpars = self.transform_parameters(tpars, in_format="mu_sigma_area", out_format="internal")
         except SrMiseTransformationError as err:
             raise SrMiseScalingError(str(err))
+        if not np.all(np.isfinite(tpars)):
+            emsg = "No peak of this shape is scaled by %s at %s." % (scale, x)
+            raise SrMiseScalingError(emsg)
         return tpars
 
     def _jacobianraw(self, pars, r, free):
-- 
2.43.0


From 96cdc884dca82af714416ed225f0301a605d54c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 48/82] fix: keep spdiameter when PDF data are copied or
 written

---
 src/diffpy/srmise/pdfdataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 4cf92b5..5bf75bd 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -396,6 +396,9 @@ class PDFDataSet(PDFComponent):
         lines.append("qdamp=%g" % self.qdamp)
         # qbroad
         lines.append("qbroad=%g" % self.qbroad)
+        # spdiameter
+        if self.spdiameter is not None:
+            lines.append("spdiameter=%g" % self.spdiameter)
         # dscale
         lines.append("dscale=%g" % self.dscale)
         # metadata
@@ -440,6 +443,7 @@ class PDFDataSet(PDFComponent):
             "qmax",
             "qdamp",
             "qbroad",
+            "spdiameter",
             "dscale",
             "rmin",
             "rmax",
-- 
2.43.0


From a4ff6b996d54fea2823feb2c536f75883d0a771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 49/82] fix: let models with Gaussian peaks be fit

The check for free parameters compared the array by identity, so evaluating the
Jacobian, and with it every fit, raised AttributeError.
---
 src/diffpy/srmise/peaks/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 8237826..e435ac9 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -275,7 +275,7 @@ class Gaussian(PeakFunction):
             Only columns corresponding to `True` values in `free` are computed.
         """
         jacobian = [None, None, None]
-        if (free is False).sum() == self.npars:
+        if not np.any(free):
             return jacobian
 
         # Optimization
-- 
2.43.0


From 88d89a6169218b7d86c3af5d531619f641d87134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 50/82] fix: let Arbitrary baselines without Jacobian be fit

The number of free parameters was counted by identity on the wrong array, which
raised AttributeError instead of the NotImplementedError that makes the fit go on
without a Jacobian.
---
 src/diffpy/srmise/baselines/arbitrary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/arbitrary.py b/src/diffpy/srmise/baselines/arbitrary.py
index d0f8c99..7d7f9e0 100644
--- a/src/diffpy/srmise/baselines/arbitrary.py
+++ b/src/diffpy/srmise/baselines/arbitrary.py
@@ -164,7 +164,7 @@ class Arbitrary(BaselineFunction):
         """
         nfree = None
         if self.jacobianf is None:
-            nfree = (pars is True).sum()
+            nfree = np.sum(free)
             if nfree != 0:
                 emsg = "No jacobian routine provided to Arbitrary."
                 raise NotImplementedError(emsg)
-- 
2.43.0


From df8bf578a4ae1e0efa3f579179e0b52d00d560c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 51/82] fix: use the sign of the scale in the derivative by the
 scale

NanoSpherical took the sign of the radius, so once the scale became negative in the
course of a fit the derivative had the wrong sign.
---
 src/diffpy/srmise/baselines/nanospherical.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/baselines/nanospherical.py b/src/diffpy/srmise/baselines/nanospherical.py
index c788b6b..bf3d0b1 100644
--- a/src/diffpy/srmise/baselines/nanospherical.py
+++ b/src/diffpy/srmise/baselines/nanospherical.py
@@ -152,13 +152,12 @@ class NanoSpherical(BaselineFunction):
         array-like
             The partial Jacobian of the nanoparticle baseline wrt scale without bounds checking.
         """
-        np.abs(pars[0])
         R = np.abs(pars[1])
         rdivR = r / R
         # From abs'(s) in derivative, which is equivalent to sign(s) except at 0 where it
         # is undefined. Since s=0 is equivalent to the absence of a nanoparticle, sign will
         # be fine.
-        sign = np.sign(pars[1])
+        sign = -1.0 if pars[0] < 0 else 1.0
         return -sign * r * (1 - (3.0 / 4.0) * rdivR + (1.0 / 16.0) * rdivR**3)
 
     def _jacobianrawradius(self, pars, r):
-- 
2.43.0


From 1fe3d229dd80db5f3ea745cdf18df412a14c7c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 52/82] fix: keep peaks sorted when the last fit of a pruning
 round is reverted

Peaks refit without one of their neighbors may pass each other.  Only a successful fit
of the whole model sorted them again.
---
 src/diffpy/srmise/modelcluster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index b395661..f18add5 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1641,6 +1641,7 @@ class ModelCluster(object):
                 prune_mc.fit(estimate=False)
                 best_qual = prune_mc.quality()
                 best_model = prune_mc.model
+                best_model.sort(key="position")  # not done if the fit was reverted
 
                 self.model = best_model
                 tracer.emit(self)
-- 
2.43.0


From 5de369998c599ab426d8b2576dcf13577bd0ba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 53/82] fix: let clusters over all data change their slice

The default slice has no start, which cannot be compared with that of the new slice.
---
 src/diffpy/srmise/modelcluster.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index f18add5..c62f419 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -916,13 +916,15 @@ class ModelCluster(object):
         if old_slice is None:
             self.never_fit = max(y_cluster_nobl - self.error_cluster) < 0
         else:
+            start, stop, step = new_slice.indices(len(self.r_data))
+            old_start, old_stop, step = old_slice.indices(len(self.r_data))
             # check if slice has expanded on the left
-            if self.never_fit and self.slice.start < old_slice.start:
-                left_slice = slice(self.slice.start, old_slice.start)
+            if self.never_fit and start < old_start:
+                left_slice = slice(start, old_start)
                 self.never_fit = max(y_data_nobl[left_slice] - self.y_error[left_slice]) < 0
             # check if slice has expanded on the right
-            if self.never_fit and self.slice.stop > old_slice.stop:
-                right_slice = slice(old_slice.stop, self.slice.stop)
+            if self.never_fit and stop > old_stop:
+                right_slice = slice(old_stop, stop)
                 self.never_fit = max(y_data_nobl[right_slice] - self.y_error[right_slice]) < 0
 
         return
-- 
2.43.0


From 06617741c1abf293461480319aa3febec2da3f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 54/82] fix: do not add an estimated peak to an empty model
 which augmenting could not improve

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index c62f419..45c87d3 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1448,7 +1448,7 @@ class ModelCluster(object):
 
         # TODO: Do I need this? If test_model contains peaks
         # by reference, the fit peaks will change as well.
-        self.fit()
+        self.fit(estimate=False)
         msg = [
             "Best model after fit is:",
             "%s",
-- 
2.43.0


From ecfd4ae8950ae8fc92f30886238d77a77eeba10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 55/82] fix: write plain numbers to files, not representations
 of numpy scalars

With numpy >= 2 saved extractions contained np.float64(...), np.True_ and
np.int64(...), which earlier versions cannot load, and which depend on the
process' print options.
---
 src/diffpy/srmise/baselines/fromsequence.py |  2 +-
 src/diffpy/srmise/modelcluster.py           |  3 +-
 src/diffpy/srmise/modelparts.py             |  4 +--
 src/diffpy/srmise/pdfpeakextraction.py      | 34 ++++++++++-----------
 src/diffpy/srmise/peakextraction.py         |  2 +-
 5 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/diffpy/srmise/baselines/fromsequence.py b/src/diffpy/srmise/baselines/fromsequence.py
index c9875e5..0977620 100644
--- a/src/diffpy/srmise/baselines/fromsequence.py
+++ b/src/diffpy/srmise/baselines/fromsequence.py
@@ -246,7 +246,7 @@ class FromSequence(BaselineFunction):
         str
             The x and y values of the given variable
         """
-        return "[%s]" % ", ".join([repr(v) for v in var])
+        return "[%s]" % ", ".join([repr(v) for v in np.asarray(var).tolist()])
 
     def readxy(self, filename):
         """"""
diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 45c87d3..71f974b 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -570,7 +570,8 @@ class ModelCluster(object):
         else:
             lines.append("ModelEvaluator=%s" % self.error_method.__name__)
 
-        lines.append("slice=%s" % repr(self.slice))
+        bounds = (self.slice.start, self.slice.stop, self.slice.step)
+        lines.append("slice=%s" % repr(slice(*[None if b is None else int(b) for b in bounds])))
 
         # Indexed baseline functions (unless externally provided)
         if writeblf:
diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index be55a76..606a03a 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -794,8 +794,8 @@ class ModelPart(object):
         lines.append("owner=%s" % repr(ownerlist.index(self._owner)))
 
         # Lists/numpy arrays don't give full representation of long lists
-        lines.append("pars=[%s]" % ", ".join([repr(p) for p in self.pars]))
-        lines.append("free=[%s]" % ", ".join([repr(f) for f in self.free]))
+        lines.append("pars=[%s]" % ", ".join([repr(p) for p in np.asarray(self.pars).tolist()]))
+        lines.append("free=[%s]" % ", ".join([repr(f) for f in np.asarray(self.free).tolist()]))
         lines.append("removable=%s" % repr(self.removable))
         lines.append("static_owner=%s" % repr(self.static_owner))
         datastring = "\n".join(lines) + "\n"
diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index 2ccc66e..da70a13 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -647,12 +647,12 @@ class PDFPeakExtraction(PeakExtraction):
         """Return string representation of peak extraction from PDF."""
         lines = []
         lines.append("filename=%s" % repr(self.filename))
-        lines.append("nyquist=%s" % repr(self.nyquist))
-        lines.append("qmax=%s" % repr(self.qmax))
-        lines.append("qmax_reportedbypdf=%s" % repr(self.qmax_reportedbypdf))
-        lines.append("qmax_fromdata=%s" % repr(self.qmax_fromdata))
-        lines.append("scale=%s" % repr(self.scale))
-        lines.append("supersample=%s" % repr(self.supersample))
+        lines.append("nyquist=%s" % repr(np.asarray(self.nyquist).tolist()))
+        lines.append("qmax=%s" % repr(np.asarray(self.qmax).tolist()))
+        lines.append("qmax_reportedbypdf=%s" % repr(np.asarray(self.qmax_reportedbypdf).tolist()))
+        lines.append("qmax_fromdata=%s" % repr(np.asarray(self.qmax_fromdata).tolist()))
+        lines.append("scale=%s" % repr(np.asarray(self.scale).tolist()))
+        lines.append("supersample=%s" % repr(np.asarray(self.supersample).tolist()))
 
         datastring = "\n".join(lines) + "\n"
         return datastring
@@ -799,24 +799,24 @@ class PDFPeakExtraction(PeakExtraction):
         # PDF peak extraction metadata
         lines.append("## PDF metadata")
         lines.append("filename=%s" % self.filename)
-        lines.append("nyquist=%s" % repr(self.nyquist))
-        lines.append("qmax=%s" % repr(self.qmax))
-        lines.append("qmax_reportedbypdf=%s" % repr(self.qmax_reportedbypdf))
-        lines.append("qmax_fromdata=%s" % repr(self.qmax_fromdata))
-        lines.append("scale=%s" % repr(self.scale))
-        lines.append("supersample=%s" % repr(self.supersample))
+        lines.append("nyquist=%s" % repr(np.asarray(self.nyquist).tolist()))
+        lines.append("qmax=%s" % repr(np.asarray(self.qmax).tolist()))
+        lines.append("qmax_reportedbypdf=%s" % repr(np.asarray(self.qmax_reportedbypdf).tolist()))
+        lines.append("qmax_fromdata=%s" % repr(np.asarray(self.qmax_fromdata).tolist()))
+        lines.append("scale=%s" % repr(np.asarray(self.scale).tolist()))
+        lines.append("supersample=%s" % repr(np.asarray(self.supersample).tolist()))
         lines.append("")
 
         lines.append("## Peak extraction metadata")
 
         # Extraction range
-        lines.append("Range=%s" % repr(self.rng))
+        lines.append("Range=%s" % repr(np.asarray(self.rng).tolist()))
 
         # Clustering resolution
         lines.append("cres=%g" % self.cres)
 
         # Average effective dy
-        lines.append("effective_dy=%s (mean)" % np.mean(self.effective_dy))
+        lines.append("effective_dy=%s (mean)" % float(np.mean(self.effective_dy)))
         # Passing the entire thing is something we're avoiding in the summary.
 
         lines.append("")
@@ -828,7 +828,7 @@ class PDFPeakExtraction(PeakExtraction):
 
         lines.append("## Model Quality")
         # Quality of fit
-        lines.append("# Quality reported by ModelEvaluator: %s" % self.extracted.quality().stat)
+        lines.append("# Quality reported by ModelEvaluator: %s" % float(self.extracted.quality().stat))
         lines.append("# Free parameters in extracted peaks: %s" % self.extracted.model.npars(count_fixed=False))
         if self.baseline is not None:
             fblpars = self.baseline.npars(count_fixed=False)
@@ -893,7 +893,7 @@ class PDFPeakExtraction(PeakExtraction):
                 parlbl = list(blf.parameterdict.keys())
                 paridx = np.array(list(blf.parameterdict.values())).argsort()
                 lines.append("# " + " ".join(str(parlbl[i]) for i in paridx))
-                blpars = " ".join([str(p) for p in self.extracted.baseline.pars])
+                blpars = " ".join([str(p) for p in np.asarray(self.extracted.baseline.pars).tolist()])
             else:
                 blpars = "(no parameters)"
             blidx = safebf.index(blf)
@@ -922,7 +922,7 @@ class PDFPeakExtraction(PeakExtraction):
         lines.append("#L position fwhm area")
         for p in self.extracted.model:
             pf = p.owner()
-            pwa = pf.transform_parameters(p, in_format="internal", out_format="pwa")
+            pwa = np.asarray(pf.transform_parameters(p, in_format="internal", out_format="pwa")).tolist()
             pidx = pf.parameterdict["position"]
             widx = pf.parameterdict["width"]
             aidx = pf.parameterdict["area"]
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 78463b3..5832a5a 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -681,7 +681,7 @@ class PeakExtraction(object):
         if self.rng is None:
             lines.append("Range=None")
         else:
-            lines.append("Range=%s" % repr(list(self.rng)))
+            lines.append("Range=%s" % repr(np.asarray(self.rng).tolist()))
 
         # Everything not defined by PeakExtraction
         lines.append("# Metadata")
-- 
2.43.0


From efbc806b4996e3600fc330b3f68d656ff3dff577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 56/82] fix: do not scale a peak at its maximum to one without
 width

---
 src/diffpy/srmise/peaks/gaussian.py      | 2 +-
 src/diffpy/srmise/peaks/gaussianoverr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index e435ac9..5ae0a21 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -237,7 +237,7 @@ class Gaussian(PeakFunction):
             tpars = self.transform_parameters(tpars, in_format="mu_sigma_area", out_format="internal")
         except SrMiseTransformationError as err:
             raise SrMiseScalingError(str(err))
-        if not np.all(np.isfinite(tpars)):
+        if not (np.all(np.isfinite(tpars)) and sigma2 > 0):
             emsg = "No peak of this shape is scaled by %s at %s." % (scale, x)
             raise SrMiseScalingError(emsg)
         return tpars
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index f550e9c..b8c2224 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -251,7 +251,7 @@ class GaussianOverR(PeakFunction):
             tpars = self.transform_parameters(tpars, in_format="mu_sigma_area", out_format="internal")
         except SrMiseTransformationError as err:
             raise SrMiseScalingError(str(err))
-        if not np.all(np.isfinite(tpars)):
+        if not (np.all(np.isfinite(tpars)) and sigma2 > 0):
             emsg = "No peak of this shape is scaled by %s at %s." % (scale, x)
             raise SrMiseScalingError(emsg)
         return tpars
-- 
2.43.0


From c7e77ddce84622b1fbaf5c903e5200a5e3e1426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 57/82] fix: find the cluster nearest to a coordinate which is
 not on the grid, or before or after the data

---
 src/diffpy/srmise/dataclusters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index c79d5fb..f6042d2 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -255,8 +255,9 @@ class DataClusters:
             raise Exception("Cannot cluster next point while status is INIT.")
 
         idx = np.searchsorted(self.x, x)
-        if idx > 0 or idx >= len(self.x):
-            return self.find_nearest_cluster(idx)
+        if idx == 0 or idx == len(self.x):
+            # x is not between two points
+            return self.find_nearest_cluster(min(idx, len(self.x) - 1))
         else:
             # Choose adjacent index nearest to x
             if (self.x[idx] - x) < (x - self.x[idx - 1]):
-- 
2.43.0


From 4bacfd9ff29f782ae7e94ea4a09268a5254de346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 58/82] fix: find and combine several runs of adjacent
 clusters, leaving the clusters unchanged if refused

---
 src/diffpy/srmise/dataclusters.py | 32 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index f6042d2..10b3efb 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -358,43 +358,44 @@ class DataClusters:
         None
         """
         # Ensure that the same clusters aren't combined multiple times.
-        combine_flat = np.array(combine).ravel()
+        combine_flat = np.array([i for c in combine for i in c], dtype=int)
         if len(combine_flat) != len(np.unique(combine_flat)):
             raise ValueError("Cannot combine a single cluster multiple times.")
 
         for c in combine:
             # Test that all clusters are contiguous and adjacent
-            first = c[0]
-            for i in range(c[0], c[-1]):
-                if c[i + 1 - first] - 1 != c[i - first]:
+            for left, right in zip(c[:-1], c[1:]):
+                if right - 1 != left:
                     raise ValueError(
                         "".join(
                             [
                                 "Clusters  ",
-                                str(c[i]),
+                                str(left),
                                 " and ",
-                                str(c[i + 1]),
+                                str(right),
                                 " are not contiguous and/or increasing.",
                             ]
                         )
                     )
-                if self.clusters[i + 1, 0] - self.clusters[i, 1] != 1:
+                if self.clusters[right, 0] - self.clusters[left, 1] != 1:
                     raise ValueError(
                         "".join(
                             [
                                 "Clusters  ",
-                                str(c[i]),
+                                str(left),
                                 " and ",
-                                str(c[i + 1]),
+                                str(right),
                                 " have unclustered points between them.",
                             ]
                         )
                     )
 
-            # update cluster endpoints
-            self.clusters[c[0], 1] = self.clusters[c[-1], 1]
-        todelete = np.array([c[1:] for c in combine]).ravel()
-        self.clusters = np.delete(self.clusters, todelete, 0)
+        # update cluster endpoints once all have been tested
+        clusters = self.clusters.copy()
+        for c in combine:
+            clusters[c[0], 1] = clusters[c[-1], 1]
+        todelete = np.array([i for c in combine for i in c[1:]], dtype=int)
+        self.clusters = np.delete(clusters, todelete, 0)
 
     def find_adjacent_clusters(self):
         """Return all cluster indices with no unclustered points between
@@ -430,7 +431,10 @@ class DataClusters:
             if right_idx > left_idx:
                 adj.append(range(left_idx, right_idx + 1))
             left_idx = right_idx + 1  # set for next possible left_idx
-        return np.array(adj)
+        if len(set(len(a) for a in adj)) > 1:
+            # Runs of different lengths do not form a rectangular array
+            return np.array([np.array(a) for a in adj], dtype=object)
+        return np.array(adj, dtype=int)
 
     def cut(self, idx):
         """Return slice(s) for data given cluster index (or indices).
-- 
2.43.0


From 4b1105ade304ebb01f8ac19f6e63552d954df06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 59/82] fix: give cluster boundaries as coordinate pairs, as
 plotting expects, also at the first point

---
 src/diffpy/srmise/dataclusters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index 10b3efb..dbbd3d8 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -455,13 +455,14 @@ class DataClusters:
         """Return sequence with (x,y) of all cluster boundaries."""
         boundaries = []
         for cluster in self.clusters:
-            xlo = np.mean(self.x[cluster[0] - 1 : cluster[0] + 1])
-            ylo = np.mean(self.y[cluster[0] - 1 : cluster[0] + 1])
+            lo = max(cluster[0] - 1, 0)
+            xlo = np.mean(self.x[lo : cluster[0] + 1])
+            ylo = np.mean(self.y[lo : cluster[0] + 1])
             xhi = np.mean(self.x[cluster[1] : cluster[1] + 2])
             yhi = np.mean(self.y[cluster[1] : cluster[1] + 2])
             boundaries.append((xlo, ylo))
             boundaries.append((xhi, yhi))
-        return np.unique(boundaries)
+        return np.unique(boundaries, axis=0)
 
     def plot(self, *args, **kwds):
         """Plot the data with vertical lines at the cluster divisions.
-- 
2.43.0


From 75bd4055c9520f24cdb6f89462ff8358765d11ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 60/82] fix: do not lose a point when a clustering step is
 interrupted

---
 src/diffpy/srmise/dataclusters.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index dbbd3d8..d1597d4 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -191,17 +191,18 @@ class DataClusters:
 
         # Find next unclustered point, if one exists.
         nearest_cluster = [0, 0.0]
-        while nearest_cluster[1] == 0.0 and self.current_idx > 0:
-            self.current_idx += -1
-            test_idx = self.data_order[self.current_idx]
+        current_idx = self.current_idx
+        while nearest_cluster[1] == 0.0 and current_idx > 0:
+            current_idx += -1
+            test_idx = self.data_order[current_idx]
             nearest_cluster = self.find_nearest_cluster(test_idx)
 
         # Check status
-        if self.current_idx <= 0:
+        if current_idx <= 0 and nearest_cluster[1] == 0.0:
+            # Last point already clustered, so stop immediately.
+            self.current_idx = current_idx
             self.status = self.DONE
-            if nearest_cluster[1] == 0.0:
-                # Last point already clustered, so stop immediately.
-                raise StopIteration
+            raise StopIteration
 
         self.lastpoint_idx = test_idx
 
@@ -226,6 +227,12 @@ class DataClusters:
                 [test_idx, test_idx],
                 0,
             )
+
+        # The point counts as considered only once it belongs to a cluster,
+        # so that none is lost if this step is interrupted.
+        self.current_idx = current_idx
+        if current_idx <= 0:
+            self.status = self.DONE
         return self
 
     def makeclusters(self):
-- 
2.43.0


From 812c4450c1c442dd1488a35ad8e1e78ca9aa4241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 61/82] fix: restore the clustering after an animation which
 fails

---
 src/diffpy/srmise/dataclusters.py | 55 ++++++++++++++++---------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index d1597d4..39b6815 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -499,33 +499,34 @@ class DataClusters:
         lastcluster_idx = self.lastcluster_idx
         lastpoint_idx = self.lastpoint_idx
         status = self.status
-        self.reset_clusters()
-
-        fig, ax = plt.subplots()
-        canvas = fig.canvas
-        background = canvas.copy_from_bbox(ax.bbox)
-        ymin, ymax = ax.get_ylim()
-        all_lines = []
-        for i in self:
-            canvas.restore_region(background)
-            boundaries = self.cluster_boundaries()
-            for i, b in enumerate(boundaries):
-                height = (b[1] - ymin) / (ymax - ymin)
-                if i < len(all_lines):
-                    all_lines[i].set_xdata([b[0], b[0]])
-                    all_lines[i].set_ydata([0, height])
-                    ax.draw_artist(all_lines[i])
-                else:
-                    line = plt.axvline(b[0], 0, height, color="k", animated=True)
-                    ax.draw_artist(line)
-                    all_lines.append(line)
-            canvas.blit(ax.bbox)
-
-        self.clusters = clusters
-        self.current_idx = current_idx
-        self.lastcluster_idx = lastcluster_idx
-        self.lastpoint_idx = lastpoint_idx
-        self.status = status
+        try:
+            self.reset_clusters()
+
+            fig, ax = plt.subplots()
+            canvas = fig.canvas
+            background = canvas.copy_from_bbox(ax.bbox)
+            ymin, ymax = ax.get_ylim()
+            all_lines = []
+            for i in self:
+                canvas.restore_region(background)
+                boundaries = self.cluster_boundaries()
+                for i, b in enumerate(boundaries):
+                    height = (b[1] - ymin) / (ymax - ymin)
+                    if i < len(all_lines):
+                        all_lines[i].set_xdata([b[0], b[0]])
+                        all_lines[i].set_ydata([0, height])
+                        ax.draw_artist(all_lines[i])
+                    else:
+                        line = plt.axvline(b[0], 0, height, color="k", animated=True)
+                        ax.draw_artist(line)
+                        all_lines.append(line)
+                canvas.blit(ax.bbox)
+        finally:
+            self.clusters = clusters
+            self.current_idx = current_idx
+            self.lastcluster_idx = lastcluster_idx
+            self.lastpoint_idx = lastpoint_idx
+            self.status = status
         return
 
 
-- 
2.43.0


From 457ef4183be8ff3b92be18798146e34fa0c681a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 62/82] fix: let MultimodelSelection.get return dG as
 documented

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index f4a20f9..7020550 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -916,7 +916,7 @@ class MultimodelSelection(PeakStability):
         fdict = {
             "aic": self.get_aic,
             "class": self.get_class,
-            "dg": lambda x: x,
+            "dG": lambda x, **kwds: x,
             "model": self.get_model,
             "nfree": self.get_nfree,
             "prob": self.get_prob,
-- 
2.43.0


From f654e2cd7cd3ecd3a016610f83c063ab54332fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 63/82] fix: replace AICs of earlier tests by complete new ones
 only, one per model and uncertainty

---
 src/diffpy/srmise/multimodelselection.py | 37 ++++++++++++++----------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 7020550..50b12de 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -80,10 +80,12 @@ class MultimodelSelection(PeakStability):
         None
         """
         aics_out = {}  # Version of self.aics that holds only the statistic, not the AIC object.
-        self.dgs = np.array(dgs)
-        for i, dg in enumerate(self.dgs):
-            self.dgs_idx[dg] = i
-            self.aics[dg] = []
+        dgs = np.array(dgs)
+        dgs_idx = {}
+        aics = {}
+        for i, dg in enumerate(dgs):
+            dgs_idx[dg] = i
+            aics[dg] = []
             aics_out[dg] = []
 
         (r, y, dr, dy) = self.ppe.resampledata(dr)
@@ -105,7 +107,7 @@ class MultimodelSelection(PeakStability):
             # also break.  That said, PeakStability, MultimodelSelection, and the entire
             # modelevaluators subpackage are in need of a rewrite, and so it would be
             # best to do them all at once.
-            dg0 = self.dgs[0]
+            dg0 = dgs[0]
             mc = ModelCluster(
                 result[1],
                 result[2],
@@ -118,13 +120,18 @@ class MultimodelSelection(PeakStability):
             )
             em0 = mc.quality()
 
-            for dg in self.dgs:
+            for dg in aics:
                 em_instance = em()
                 em_instance.chisq = em0.chisq * (dg0 / dg) ** 2  # rescale chi-square
                 em_instance.evaluate(mc)  # evaluate AIC without recalculating chi-square
-                self.aics[dg].append(em_instance)
+                aics[dg].append(em_instance)
                 aics_out[dg].append(em_instance.stat)
 
+        # Only complete results replace those of earlier tests.
+        self.dgs = dgs
+        self.dgs_idx = dgs_idx
+        self.aics = aics
+
         self.makeaicweights()
         self.makeaicprobs()
         self.makesortedprobs()
@@ -160,18 +167,18 @@ class MultimodelSelection(PeakStability):
 
         em = self.ppe.error_method
 
-        self.aics = aics_in
-        self.dgs = np.sort(list(aics_in.keys()))
-
-        for i, dg in enumerate(self.dgs):
-            self.dgs_idx[dg] = i
+        dgs = np.sort(list(aics_in.keys()))
 
         # Reconstruct in terms of AIC instances instead of the raw statistic found in file
-        for dg in self.aics:
-            for i, stat in enumerate(self.aics[dg]):
+        for dg in aics_in:
+            for i, stat in enumerate(aics_in[dg]):
                 em_instance = em()
                 em_instance.stat = stat
-                self.aics[dg][i] = em_instance
+                aics_in[dg][i] = em_instance
+
+        self.dgs = dgs
+        self.dgs_idx = dict((dg, i) for i, dg in enumerate(dgs))
+        self.aics = aics_in
 
         self.makeaicweights()
         self.makeaicprobs()
-- 
2.43.0


From ada11e55a48880277962d848063a12c1c35c806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 64/82] fix: keep the results when a file of peak stability
 results cannot be loaded

---
 src/diffpy/srmise/peakstability.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index c8bad64..527670b 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -48,14 +48,14 @@ class PeakStability:
 
         in_s = open(filename, "rb")
         try:
-            (self.results, ppestr) = pickle.load(in_s)
-            self.ppe = PDFPeakExtraction()
-            self.ppe.readstr(ppestr)
+            (results, ppestr) = pickle.load(in_s)
+            ppe = PDFPeakExtraction()
+            ppe.readstr(ppestr)
 
             # Ugly kluge for the baseline, since FromSequence
             # can't pickle.
-            for r in self.results:
-                bl = self.ppe.baseline
+            for r in results:
+                bl = ppe.baseline
                 kwds = r[2]
                 if r[2] is not None:
                     kwds = r[2]
@@ -66,6 +66,8 @@ class PeakStability:
         finally:
             in_s.close()
 
+        self.results = results
+        self.ppe = ppe
         self.setcurrent(0)
 
     def save(self, filename):
-- 
2.43.0


From 05c43fb14b4e0884e66dc7503248c0855516b6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 65/82] fix: animating probabilities showed peaks with the
 baseline of another model

Replacing only the peaks also failed for peaks which may not be removed.
---
 src/diffpy/srmise/multimodelselection.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 50b12de..5287655 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -244,8 +244,7 @@ class MultimodelSelection(PeakStability):
             vline.set_xdata([dg, dg])
             if self.sortedprobs[dg][-1] != best_idx:
                 best_idx = self.sortedprobs[dg][-1]
-                s = slice(0, len(self.ppe.extracted.model))
-                self.ppe.extracted.replacepeaks(self.results[best_idx][1].copy(), s)
+                self.setcurrent(best_idx)
                 plt.cla()
                 plt.plot(*self.ppe.extracted.plottable())
             dot.set_xdata([self.dgs[best_idx]])
@@ -315,8 +314,8 @@ class MultimodelSelection(PeakStability):
             if self.sortedclassprobs[dg][-1] != bestclass_idx:
                 bestclass_idx = self.sortedclassprobs[dg][-1]
                 best_idx = self.sortedclasses[dg][bestclass_idx][-1]
-                s = slice(0, len(tempcluster.model))
-                tempcluster.replacepeaks(self.results[best_idx][1], s)
+                self.setcurrent(best_idx)
+                tempcluster = ModelCluster(self.ppe.extracted)
                 plt.cla()
                 val = tempcluster.plottable()
                 minval = np.min(val[1::2])
-- 
2.43.0


From c1bc985dd58d113af95eac82ccb37fc185a91af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:41 +0000
Subject: [PATCH 66/82] fix: do not keep the number of the current model when
 running anew

---
 src/diffpy/srmise/peakstability.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 527670b..de25e47 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -202,6 +202,7 @@ class PeakStability:
             If savecovs is True, return the covariance matrix for each final fit.
         """
         self.results = []
+        self.current = None
         covs = []
         for i, e in enumerate(err):
             print("---- Running for uncertainty %s (%i/%i) ----" % (e, i, len(err)))
@@ -217,6 +218,7 @@ class PeakStability:
             # Copies, since the extraction may still be changed by its user.
             bl = self.ppe.extracted.baseline
             self.results.append([e, self.ppe.extracted.model.copy(), None if bl is None else bl.copy(), dr])
+            self.current = i
 
         for e, r, bl, dr in self.results:
             print("---- Results for uncertainty %s ----" % e)
-- 
2.43.0


From 3577ff939467a4f8fc049f12d444d2ab4f991f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 67/82] fix: log to a file at the level given, also if given by
 name or below that of the default log

---
 src/diffpy/srmise/srmiselog.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index ddb2971..34b837f 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -87,11 +87,14 @@ def addfilelog(filename, level=defaultlevel, format=defaultformat):
     format: A string defining format of output messages conforming to logging package.
     """
     global fh
+    level = LEVELS.get(level, level)
+    formatter = logging.Formatter(format)
     fh = logging.FileHandler(filename)
     fh.setLevel(level)
-    formatter = logging.Formatter(format)
     fh.setFormatter(formatter)
     logger.addHandler(fh)
+    if level < logger.getEffectiveLevel():
+        logger.setLevel(level)
 
 
 def setfilelevel(level):
-- 
2.43.0


From 1a8c53a931ff6b468e906f154ee201f6c150b043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 68/82] fix: without extraction to summarise, still print the
 result of the command

---
 src/diffpy/srmise/applications/extract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index c4cdeb5..291f78f 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -467,7 +467,7 @@ def main():
     srmiselog.setlevel(options.verbosity)
 
     from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
-    from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseFileError
+    from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseError, SrMiseFileError
 
     if options.peakfunction:
         try:
@@ -624,14 +624,14 @@ def main():
         if options.savefile:
             try:
                 ext.write(options.savefile)
-            except (OSError, SrMiseFileError) as err:
+            except (OSError, SrMiseError) as err:
                 print(err)
                 print("Could not save result to '%s'." % options.savefile)
 
         if options.pwafile:
             try:
                 ext.writepwa(options.pwafile)
-            except (OSError, SrMiseFileError) as err:
+            except (OSError, SrMiseError) as err:
                 print(err)
                 print("Could not save pwa summary to '%s'." % options.pwafile)
 
-- 
2.43.0


From 4e8ee977b54506a0e6cac3aed93d108087a2467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 69/82] fix: do not take a damaged .srmise file for a PDF

---
 src/diffpy/srmise/applications/extract.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 291f78f..41faf8a 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -11,6 +11,7 @@
 #
 ##############################################################################
 
+import re
 import textwrap
 from optparse import IndentedHelpFormatter, OptionGroup, OptionParser
 
@@ -571,6 +572,10 @@ def main():
         try:
             ext.read(filename)
         except (SrMiseDataFormatError, SrMiseFileError, Exception):
+            # The data of a damaged .srmise file may be readable as a PDF, but are not all it was saved with.
+            with open(filename, errors="replace") as f:
+                if re.search(r"^#+ PDF Peak Extraction\s*$", f.read(), re.M):
+                    raise
             ext.loadpdf(filename)
 
         pdict = {}
-- 
2.43.0


From e68da3cb09efaf3986f34ed352741f336bec6296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 70/82] fix: do not keep the qmax determined from earlier data
 if it cannot be determined from new data

---
 src/diffpy/srmise/pdfpeakextraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index da70a13..e203ed3 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -100,6 +100,7 @@ class PDFPeakExtraction(PeakExtraction):
             The y-coordinates of the data.
         """
         PeakExtraction.setdata(self, x, y, dx, dy)
+        self.qmax_fromdata = None
         try:
             self.qmax_fromdata = find_qmax(self.x, self.y)[0]
         except Exception:
-- 
2.43.0


From 8cacb61a06b9cef24732210a9347e01b59050505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:58 +0000
Subject: [PATCH 71/82] fix: do not set some extraction variables when others
 are invalid

---
 src/diffpy/srmise/peakextraction.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 5832a5a..9a6fb95 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -160,15 +160,15 @@ class PeakExtraction(object):
             The sequence specifying the least and greatest x-values over which to extract peaks.
         """
         for k, v in kwds.items():
-            if k in self.extractvars:
-                if quiet:
-                    logger.debug("Setting variable %s=%s", k, v)
-                else:
-                    logger.info("Setting variable %s=%s", k, v)
-                setattr(self, k, v)
-            else:
+            if k not in self.extractvars:
                 emsg = "Invalid extraction variable: %s=%s" % (k, v)
                 raise ValueError(emsg)
+        for k, v in kwds.items():
+            if quiet:
+                logger.debug("Setting variable %s=%s", k, v)
+            else:
+                logger.info("Setting variable %s=%s", k, v)
+            setattr(self, k, v)
         self.defaultvars()
 
     def defaultvars(self, *args):
-- 
2.43.0


From 84caaa36f56b7c9801eeaa576db04ba8e41dc11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:58 +0000
Subject: [PATCH 72/82] fix: pass plot keywords of an extraction on as keywords

---
 src/diffpy/srmise/peakextraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 9a6fb95..fcc9282 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -281,7 +281,7 @@ class PeakExtraction(object):
         """
         plt.clf()
         if self.extracted is not None:
-            plt.plot(*self.extracted.plottable(kwds))
+            plt.plot(*self.extracted.plottable(**kwds))
         else:
 
             # Make sure all required extraction variables have some value
@@ -301,7 +301,7 @@ class PeakExtraction(object):
                 self.error_method,
                 self.pf,
             )
-            plt.plot(*mcluster.plottable(kwds))
+            plt.plot(*mcluster.plottable(**kwds))
 
     def read(self, filename):
         """Load PeakExtraction object from file.
-- 
2.43.0


From b5cacdd881b47e0dd75e728295200eed2a153235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:12 +0000
Subject: [PATCH 73/82] fix: read the distances to compare with in the plot
 tool

The file was searched as bytes with a text pattern, which always fails, it was
not closed, and the first digit of the first distance was dropped.
---
 src/diffpy/srmise/applications/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/plot.py b/src/diffpy/srmise/applications/plot.py
index b4d28c0..96834a6 100755
--- a/src/diffpy/srmise/applications/plot.py
+++ b/src/diffpy/srmise/applications/plot.py
@@ -560,7 +560,8 @@ def readcompare(filename):
     """
     # TODO: Make this safer
     try:
-        datastring = open(filename, "rb").read()
+        with open(filename, "r") as f:
+            datastring = f.read()
     except Exception as err:
         raise err
 
@@ -568,7 +569,7 @@ def readcompare(filename):
 
     res = re.search(r"^[^#]", datastring, re.M)
     if res:
-        datastring = datastring[res.end() :].strip()
+        datastring = datastring[res.start() :].strip()
 
     distances = []
 
-- 
2.43.0


From 0769d247c45e339765475349652cb4385d89852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:12 +0000
Subject: [PATCH 74/82] fix: ignore a file of distances with invalid lines as
 reported

The distances before the first invalid line were compared nevertheless.
---
 src/diffpy/srmise/applications/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/applications/plot.py b/src/diffpy/srmise/applications/plot.py
index 96834a6..3002926 100755
--- a/src/diffpy/srmise/applications/plot.py
+++ b/src/diffpy/srmise/applications/plot.py
@@ -578,6 +578,7 @@ def readcompare(filename):
             distances.append(float(line))
     except (ValueError, IndexError):
         print("Could not read distances from '%s'. Ignoring file." % filename)
+        return None
 
     if len(distances) == 0:
         return None
-- 
2.43.0


From 8c8c499da3680ab8aad5eafca9845c02f618e626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:41 +0000
Subject: [PATCH 75/82] fix: draw figures which were cleared after makeplot

---
 src/diffpy/srmise/applications/plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/applications/plot.py b/src/diffpy/srmise/applications/plot.py
index 3002926..23b1d75 100755
--- a/src/diffpy/srmise/applications/plot.py
+++ b/src/diffpy/srmise/applications/plot.py
@@ -524,7 +524,11 @@ _lastxpos = {}
 def on_draw(event):
     global _lastxpos
     fig = event.canvas.figure
-    ax_main = fig.get_axes()[0]
+    axes = fig.get_axes()
+    if len(axes) == 0 or labeldict[fig] not in axes[0].texts:
+        # The figure has been cleared and shows something else now.
+        return
+    ax_main = axes[0]
     invisiblelabel = ax_main.axis["left"].label
     invisiblelabel.set_visible(True)
     visiblelabel = labeldict[fig]
-- 
2.43.0


From 5f7c2d1031dc2ef1e9d8c03d882b8cfc66e9944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:41 +0000
Subject: [PATCH 76/82] fix: show all uncertainties of a PeakStability in any
 order

---
 src/diffpy/srmise/applications/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/plot.py b/src/diffpy/srmise/applications/plot.py
index 23b1d75..e90536a 100755
--- a/src/diffpy/srmise/applications/plot.py
+++ b/src/diffpy/srmise/applications/plot.py
@@ -140,8 +140,8 @@ def dgseries(stability, **kwds):
 
     scale = kwds.get("scale", 1.0)
 
-    dgmin = kwds.get("dgmin", stability.results[0][0]) * scale
-    dgmax = kwds.get("dgmax", stability.results[-1][0]) * scale
+    dgmin = kwds.get("dgmin", min(r[0] for r in stability.results)) * scale
+    dgmax = kwds.get("dgmax", max(r[0] for r in stability.results)) * scale
 
     pmin = kwds.get("pmin", 0.0)
     pmax = kwds.get("pmax", np.inf)
-- 
2.43.0


From e8fc57ec86d6eecebe04f7d4fade5a5b8ea6e381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:41 +0000
Subject: [PATCH 77/82] fix: draw into the figure given to makeplot

---
 src/diffpy/srmise/applications/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/applications/plot.py b/src/diffpy/srmise/applications/plot.py
index e90536a..10bb83b 100755
--- a/src/diffpy/srmise/applications/plot.py
+++ b/src/diffpy/srmise/applications/plot.py
@@ -326,6 +326,7 @@ def makeplot(ppe_or_stability, ip=None, **kwds):
     fig.clf()
     ax_data = AA.Subplot(fig, 111)
     fig.add_subplot(ax_data)
+    plt.sca(ax_data)  # fig need not be the current figure
     figdict["fig"] = fig
     figdict["data"] = ax_data
 
-- 
2.43.0


From 867abd7d879937388592ac8672723958494df70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:44 +0000
Subject: [PATCH 78/82] fix: parameters given as whole numbers are not
 truncated

Parameters were kept in an integer array when all of them were given as
integers, so conversions truncated them and fits could only set whole
numbers.
---
 src/diffpy/srmise/basefunction.py | 1 +
 src/diffpy/srmise/modelparts.py   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/basefunction.py b/src/diffpy/srmise/basefunction.py
index 861a85d..26ea1a1 100644
--- a/src/diffpy/srmise/basefunction.py
+++ b/src/diffpy/srmise/basefunction.py
@@ -329,6 +329,7 @@ class BaseFunction(object):
             raise ValueError("Argument 'out_format' must be one of %s." % self.parformats)
         # if in_format == out_format:
         #    return pars
+        pars = np.array(pars, dtype=float)
         return self._transform_parametersraw(pars, in_format=in_format, out_format=out_format)
 
     def value(self, p, r, rng=None):
diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index 606a03a..7940ed7 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -532,7 +532,7 @@ class ModelPart(object):
         if len(pars) != owner.npars:
             emsg = "The length of pars must equal the number of parameters " + "specified by the model part owner."
             raise ValueError(emsg)
-        self.pars = np.array(pars[:])  # pars[:] in case pars is a ModelPart
+        self.pars = np.array(pars[:], dtype=float)  # pars[:] in case pars is a ModelPart
 
         if free is None:
             self.free = np.array([True for p in pars], dtype=bool)
-- 
2.43.0


From ac3a10257150c8fd4f5859f41434dbdc552e6a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:20 +0000
Subject: [PATCH 79/82] fix: uncertainties given as a list are used like an
 array

effective_dy is documented as array-like, but a list made extractions
fail with a TypeError.
---
 src/diffpy/srmise/peakextraction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index fcc9282..99387f9 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -212,6 +212,8 @@ class PeakExtraction(object):
                 self.effective_dy = 0.05 * (np.max(self.y) - np.min(self.y)) * np.ones(len(self.x))
         elif np.isscalar(self.effective_dy) and self.effective_dy > 0:
             self.effective_dy = self.effective_dy * np.ones(len(self.x))
+        elif not np.isscalar(self.effective_dy):
+            self.effective_dy = np.asarray(self.effective_dy)
 
         if self.pf is None or "pf" in args:
             from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
-- 
2.43.0


From 60c543a39d12fa54400cdf331fd6b672d9ac6e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:46 +0000
Subject: [PATCH 80/82] fix: animated class probabilities mark the class from
 the first frame

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 5287655..48d58d1 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -281,7 +281,7 @@ class MultimodelSelection(PeakStability):
         arrow_right = arrow_left + 0.05 * arrow_left
         (line,) = plt.plot(range(len(self.classes)), self.classprobs[self.dgs[0]])
         (dot,) = plt.plot(
-            self.dgs[best_idx],
+            bestclass_idx,
             self.classprobs[self.dgs[0]][bestclass_idx],
             "ro",
         )
-- 
2.43.0


From 4efca81803af49b717420b66d57ac3104980f11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:47 +0000
Subject: [PATCH 81/82] fix: class probabilities can be plotted again

---
 src/diffpy/srmise/multimodelselection.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 48d58d1..ec55793 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -616,7 +616,7 @@ class MultimodelSelection(PeakStability):
         "cbaxis" - The colorbar axis, if it exists.
         "cb" - The colorbar, if it exists.
         """
-        from matplotlib import cm, colorbar, colors
+        from matplotlib import colorbar, colors
         from matplotlib.collections import PolyCollection
 
         fig = kwds.pop("figure", plt.gcf())
@@ -631,13 +631,13 @@ class MultimodelSelection(PeakStability):
         probfilter = kwds.pop("probfilter", [0.0, 1.0])
         class_size = kwds.pop("class_size", "number")
         norm = kwds.pop("norm", "auto")
-        cmap = kwds.pop("cmap", cm.get_cmap("jet"))
-        highlight_cmap = kwds.pop("highlight_cmap", cm.get_cmap("gray"))
+        cmap = plt.get_cmap(kwds.pop("cmap", "jet"))
+        highlight_cmap = plt.get_cmap(kwds.pop("highlight_cmap", "gray"))
         title = kwds.pop("title", True)
         p_alpha = kwds.pop("p_alpha", 0.7)
         scale = kwds.pop("scale", 1.0)
 
-        xs = dGs * scale
+        xs = np.asarray(dGs) * scale
         verts = []
         zs = []
         zlabels = []
@@ -650,7 +650,7 @@ class MultimodelSelection(PeakStability):
                     (xs[0], 0),
                     (xs[-1], 0),
                 )  # points to close the vertices
-                verts.append(np.concatenate([[p0], zip(xs, ys), [p1], [p0]]))
+                verts.append(np.concatenate([[p0], np.column_stack((xs, ys)), [p1], [p0]]))
                 zlabels.append(i)
 
         #  Define face colors
@@ -696,7 +696,7 @@ class MultimodelSelection(PeakStability):
         for dG, ci in zip(highlight, color_idx):
             for z_logical, z_plot in zip(zlabels, zs):
                 ax.plot(
-                    [dG, dG],
+                    [dG * scale, dG * scale],
                     [z_plot, z_plot],
                     [0, self.classprobs[dG][z_logical]],
                     color=highlight_cmap(ci),
-- 
2.43.0


From 2426ee8772138befa2ad793cb5f69b3852a66789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:56:33 +0000
Subject: [PATCH 82/82] fix: --cres 0 is used instead of ignored

Zero, which lets every point be a cluster, was taken for an option not given.
---
 src/diffpy/srmise/applications/extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 41faf8a..3c17ecb 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -583,7 +583,7 @@ def main():
             pdict["pf"] = [options.peakfunction]
         if options.baseline is not None:
             pdict["baseline"] = options.baseline
-        if options.cres:
+        if options.cres is not None:
             pdict["cres"] = options.cres
         if options.dg_mode is None and (options.dg or ext.effective_dy is None):
             if options.dg:
-- 
2.43.0

