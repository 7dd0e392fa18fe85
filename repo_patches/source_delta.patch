From 43cbee96c0bc961cf21fff04ed7cf0c3a7c4a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 01/31] fix: storing a value replaces what was stored at that
 path before

h5py's require_dataset opens an existing dataset of the same shape without writing, so
arrays (e.g. re-histogrammed bin edges) kept their old content; a scalar was squeezed into
the type of the previous one (1.5 became 1); None and removed dict/DataFrame entries left
stale values behind.
---
 src/mcsas3/mc_hdf.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 19db19a..7e3e167 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -107,6 +107,9 @@ def storeKV(filename: Path, path: PurePosixPath, value=None) -> None:
     assert path is not None, "HDF5 path cannot be empty"
 
     if isinstance(value, (dict, pandas.DataFrame)):
+        with h5py.File(filename, "a") as h5f:
+            if str(path) in h5f:  # do not mix with the entries of a previously stored one
+                del h5f[str(path)]
         storeKVPairs(filename, path, value.items())
         return
 
@@ -114,6 +117,8 @@ def storeKV(filename: Path, path: PurePosixPath, value=None) -> None:
     with h5py.File(filename, "a") as h5f:
         h5g = h5f.require_group(str(path))
         dset, unit = None, None
+        if key in h5g:  # replace it, an existing dataset would keep its type, shape or value
+            del h5g[key]
         if isinstance(value, pint.Quantity):
             value, unit = value.m, value.u
         if isinstance(value, Path):
@@ -125,19 +130,10 @@ def storeKV(filename: Path, path: PurePosixPath, value=None) -> None:
         if isinstance(value, (np.ndarray, pandas.Series)):
             if str(value.dtype).startswith("<U") or str(value.dtype).startswith("object"):
                 value = value.astype(h5py.special_dtype(vlen=str))
-
-            try:
-                dset = h5g.require_dataset(key, data=value, shape=value.shape, dtype=value.dtype)
-            except TypeError:
-                del h5g[key]
-                dset = h5g.require_dataset(key, data=value, shape=value.shape, dtype=value.dtype)
+            dset = h5g.create_dataset(key, data=value, shape=value.shape, dtype=value.dtype)
 
         elif value is not None:
-            dset = h5g.get(key, None)
-            if dset is None:
-                dset = h5g.create_dataset(key, data=value)
-            else:
-                dset[()] = value
+            dset = h5g.create_dataset(key, data=value)
 
         if unit is not None:
             dset.attrs["unit"] = str(unit)
-- 
2.43.0


From 5032ad39f9d79903e43ed27ca97519cb391f67f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 02/31] fix: record the goodness-of-fit reached by an accepted
 pick, not the one before it

---
 src/mcsas3/mc_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mcsas3/mc_core.py b/src/mcsas3/mc_core.py
index 1907d81..cd8db24 100644
--- a/src/mcsas3/mc_core.py
+++ b/src/mcsas3/mc_core.py
@@ -204,10 +204,10 @@ class McCore:
         newGof = self.reEvaluate()  # 2 ms
         # if this is an improvement:
         if newGof < self._opt.gof:
-            # accept the move:
-            self.accept()  # 500 µs
-            # and store the new GOF as current:
+            # store the new GOF as current:
             self._opt.gof = newGof
+            # and accept the move:
+            self.accept()  # 500 µs
         # increment step counter in either case:
         self._opt.step += 1
 
-- 
2.43.0


From 203d028d6501dda79173f30422cca0b47cc97da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 03/31] fix: loading a core leaves the acceptance history as
 stored

Appending a list to the loaded array added the value to every entry instead.
---
 src/mcsas3/mc_core.py | 5 +++--
 src/mcsas3/mc_opt.py  | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_core.py b/src/mcsas3/mc_core.py
index cd8db24..f250249 100644
--- a/src/mcsas3/mc_core.py
+++ b/src/mcsas3/mc_core.py
@@ -96,8 +96,9 @@ class McCore:
         # store the initial background and scaling optimization as new initial guess:
         self._opt.x0 = self._opt.testX0
 
-        self._opt.acceptedSteps += [0]
-        self._opt.acceptedGofs += [self._opt.gof]
+        if loadFromFile is None:  # otherwise, the history was loaded already
+            self._opt.acceptedSteps += [0]
+            self._opt.acceptedGofs += [self._opt.gof]
         return  # one of the following tests always fails for test data, what's the purpose?
         # the hope was to test that the previously stored optimization result still
         # gives the same answer for GOF and scaling/background
diff --git a/src/mcsas3/mc_opt.py b/src/mcsas3/mc_opt.py
index 31c3cdd..be5be2d 100644
--- a/src/mcsas3/mc_opt.py
+++ b/src/mcsas3/mc_opt.py
@@ -111,4 +111,6 @@ class McOpt:
         if path is None:
             path = self.resultIndex.nxsEntryPoint / "optimization" / f"repetition{repetition}"
         for key, value in loadKVPairs(filename, path, self.loadKeys):
+            if key in ("acceptedSteps", "acceptedGofs"):
+                value = list(value)  # to be appended to, an array would be added to instead
             setattr(self, key, value)
-- 
2.43.0


From ea103e80ec855f514b64755caa22d553b3e3278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 04/31] fix: make repetitions independent of each other and of
 the process they run in

With a fixed (or the default) seed, every worker process started with the same random numbers
and produced identical repetitions. Repetitions sharing a process started the scaling and
background optimization from the result of the previous repetition.
---
 src/mcsas3/mc_hat.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 864be0b..241d513 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -142,10 +142,14 @@ class McHat:
         if bufferStdIO:
             # buffer stdout/err in an individual StringIO object for each repetition
             sys.stderr = sys.stdout = StringIO()
-        if self._opt is None:
-            self._opt = McOpt(**self._optArgs)
-        if self._model is None:
-            self._model = McModel(**self._modelArgs)
+        # Set up anew for every repetition, nothing must carry over from one done before.
+        # Each one needs different random numbers, regardless of which process it runs in.
+        modelArgs = dict(self._modelArgs)
+        seed = modelArgs.get("seed", McModel.seed)
+        if isinstance(seed, (int, np.integer)):
+            modelArgs["seed"] = int(seed) + repetition
+        self._opt = McOpt(**self._optArgs)
+        self._model = McModel(**modelArgs)
 
         self._opt.repetition = repetition
         self._model.resetParameterSet()
-- 
2.43.0


From 1fe65b51f262a48b9d05c9026631997724295a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 05/31] fix: derive automatic fit limits from the data of each
 run

The limits were filled into the caller's configuration, so that the next data set fitted with
the same configuration silently used the limits of the first one.
---
 src/mcsas3/mc_hat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 241d513..412e2a9 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -71,6 +71,8 @@ class McHat:
             [(key, kwargs.pop(key)) for key in McModel.settables if key in kwargs]
         )
         self._modelArgs.update({"resultIndex": resultIndex})
+        # as configured, 'auto' limits are filled in for each run without touching this
+        self._fitParameterLimits = self._modelArgs.get("fitParameterLimits", None)
 
         for key, value in kwargs.items():
             assert key in self.storeKeys, "Key {} is not a valid option".format(key)
@@ -78,7 +80,8 @@ class McHat:
         assert self.nRep > 0, "Must optimize for at least one repetition"
 
     def fillFitParameterLimits(self, measData: dict) -> None:
-        for key, val in self._modelArgs["fitParameterLimits"].items():
+        self._modelArgs["fitParameterLimits"] = dict(self._fitParameterLimits)
+        for key, val in self._fitParameterLimits.items():
             if isinstance(val, str):
                 assert val == "auto", (
                     "Only fit parameter options are either providing [min, max] limits or setting"
-- 
2.43.0


From 854abcf3e5377f840f7adb3276670810d818a6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 06/31] fix: do not add to the caller's static parameters when
 loading a simulation model

---
 src/mcsas3/mc_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index db806c2..1d0c8bd 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -536,7 +536,7 @@ class McModel:
     def loadSimModel(self) -> None:
         if "simDataQ1" not in self.staticParameters.keys():
             # if it was None when written, it might not exist when loading
-            self.staticParameters.update({"simDataQ1": None})
+            self.staticParameters = dict(self.staticParameters, simDataQ1=None)
 
         self.func = McSimPseudoModel(
             extrapY0=self.staticParameters["extrapY0"],
-- 
2.43.0


From a63f46d9f381aef2590e0097a315a80b649e16e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 07/31] fix: restoring 1D data keeps the stored settings

The stored dataRange and csvargs were reset to defaults after loading, so that the next store
and restore changed the data, and the Q offset (qNudge) was not restored at all.
---
 src/mcsas3/mc_data.py    | 9 +++++----
 src/mcsas3/mc_data_1d.py | 4 +++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mcsas3/mc_data.py b/src/mcsas3/mc_data.py
index 1be7217..9f93f56 100644
--- a/src/mcsas3/mc_data.py
+++ b/src/mcsas3/mc_data.py
@@ -83,6 +83,7 @@ class McData:
             "dataRange": None,  # not sure what this is.. array?
             "csvargs": "dict",
             "loader": "str",
+            "qNudge": None,
             "omitQRanges": list,  # not sure if this works?
         }
     )
@@ -333,10 +334,10 @@ class McData:
             path = self.resultIndex.nxsEntryPoint / "mcdata"
         for key, datatype in self.loadKeys.items():
             value = loadKV(filename, path / key, datatype=datatype, default=None, dbg=True)
-            if key == "csvargs":
-                self.csvargs.update(value)
-            else:
-                if value is not None:
+            if value is not None:
+                if key == "csvargs":
+                    self.csvargs.update(value)
+                else:
                     setattr(self, key, value)
         # load rawData if availalbe in the result file
         try:
diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index b0b32e9..dee19ef 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -24,7 +24,7 @@ class McData1D(McData):
         resultIndex: int = 1,
         **kwargs: dict,
     ) -> None:
-        super().__init__(loadFromFile=loadFromFile, resultIndex=resultIndex, **kwargs)
+        super().__init__(resultIndex=resultIndex, **kwargs)
         self.csvargs = {
             "sep": r"\s+",
             "header": None,
@@ -32,6 +32,8 @@ class McData1D(McData):
         }  # default for 1D, overwritten in subclass
         self.dataRange = [-np.inf, np.inf]  # min-max for data range to fit
         self.qNudge = 0  # nudge in case of misaligned centers. Applied to measData
+        if loadFromFile is not None:  # after setting the defaults, not to be reset by them
+            self.load(loadFromFile)
         self.processKwargs(**kwargs)  # redo kwargs in case the reset values have been updated
 
         # load from dataframe if provided
-- 
2.43.0


From 1c4099134412d78640a9d380f64164262b2d7bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 08/31] fix: omit only the data points inside the omitted Q
 ranges

Dropping by row label also dropped points outside the ranges if labels are not unique, for
example in a concatenated DataFrame.
---
 src/mcsas3/mc_data_1d.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index dee19ef..200865f 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -116,10 +116,9 @@ class McData1D(McData):
                 len(omitQRange) == 2
             ), "each omitQRange must contain two elements: a minimum and maximum value"
             # we drop the matches:
-            self.clippedData.drop(
-                self.clippedData.query(f"{omitQRange[0]} <= Q < {omitQRange[1]}").index,
-                inplace=True,
-            )
+            self.clippedData = self.clippedData.query(
+                f"not ({omitQRange[0]} <= Q < {omitQRange[1]})"
+            ).copy()
 
     def reBin(
         self, nbins: Optional[int] = None, IEmin: Optional[float] = None, QEMin: float = 0.01
-- 
2.43.0


From 1f2ade0f0091318ed908b48fb9e3c8a38efbad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 09/31] fix: rebinning always includes the data point of the
 smallest Q

The first calculated bin edge is subject to rounding; if it ended up above the smallest Q, that
data point was lost.
---
 src/mcsas3/mc_data_1d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index 200865f..5cd8fb4 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -154,6 +154,8 @@ class McData1D(McData):
             }
         )
 
+        # the calculated first edge may lie slightly above the first datapoint:
+        binEdges[0] = qMin
         # add a little to the end to ensure the last datapoint is captured:
         binEdges[-1] = binEdges[-1] + 1e-3 * (binEdges[-1] - binEdges[-2])
 
-- 
2.43.0


From c9c3fff3eec9af12bb4c042f5fd5746397195034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 10/31] fix: rebinning keeps the data if there is only a single
 Q value

---
 src/mcsas3/mc_data_1d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index 5cd8fb4..4a6e728 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -158,6 +158,8 @@ class McData1D(McData):
         binEdges[0] = qMin
         # add a little to the end to ensure the last datapoint is captured:
         binEdges[-1] = binEdges[-1] + 1e-3 * (binEdges[-1] - binEdges[-2])
+        # also if all have the same Q:
+        binEdges[-1] = np.maximum(binEdges[-1], np.nextafter(qMax, np.inf))
 
         # now do the binning per bin.
         for binN in range(len(binEdges) - 1):
-- 
2.43.0


From 4e2ba1bb5da52a8c42fdc6f3618385ff88221cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 11/31] fix: a repetition without contributions in a range has
 a total of zero there

As NaN, it was left out of the mean over the repetitions, which therefore was too large and
did not agree with the mean histogram.
---
 src/mcsas3/mc_model_histogrammer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_model_histogrammer.py b/src/mcsas3/mc_model_histogrammer.py
index d2ff95b..244bdf5 100644
--- a/src/mcsas3/mc_model_histogrammer.py
+++ b/src/mcsas3/mc_model_histogrammer.py
@@ -178,7 +178,8 @@ class McModelHistogrammer:
         clippedDataVolumes = workVolumes[workData.between(histRange.rangeMin, histRange.rangeMax)]
 
         if clippedDataVolumes.size == 0:
-            val, mu, var, skw, krt = np.nan, np.nan, np.nan, np.nan, np.nan
+            # nothing in this range, the total counts as such when averaging over repetitions
+            val, mu, var, skw, krt = 0.0, np.nan, np.nan, np.nan, np.nan
         else:
             # needs a rethink...
             val, mu, var, skw, krt = calcModes(
-- 
2.43.0


From 045cfa59a4b8927cb422f082b4569db4e2fb6e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 12/31] fix: never delete the data file given as result file by
 another path

Comparing the paths by their spelling missed for example data/../data/file.nxs, the data file was
deleted then.
---
 src/mcsas3/cli_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/cli_tools.py b/src/mcsas3/cli_tools.py
index 430e413..bfd1958 100644
--- a/src/mcsas3/cli_tools.py
+++ b/src/mcsas3/cli_tools.py
@@ -41,7 +41,8 @@ class McSAS3_cli_optimize(object):
         if self.resultFile.is_file():
             # only remove result file if it is not the main file!
             # This way, you can add McSAS to an existing nexus file
-            if (self.resultFile != self.dataFile) & (self.deleteIfExists):
+            # (however its path is written)
+            if self.deleteIfExists and not self.resultFile.samefile(self.dataFile):
                 self.resultFile.unlink()
         # read the configuration file
         with open(self.readConfigFile, "r") as f:
-- 
2.43.0


From cde532b50870b4966ddca7f63b190664ea04d61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 13/31] fix: analyze the complete repetitions if storing one of
 them failed

A repetition which was stored partially made the analysis of the whole file fail.
---
 src/mcsas3/mc_analysis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_analysis.py b/src/mcsas3/mc_analysis.py
index 28508fb..cd54102 100644
--- a/src/mcsas3/mc_analysis.py
+++ b/src/mcsas3/mc_analysis.py
@@ -12,6 +12,7 @@ from mcsas3.mc_hdf import ResultIndex, storeKVPairs
 
 from .mc_core import McCore
 from .mc_model_histogrammer import McModelHistogrammer
+from .mc_opt import McOpt
 
 
 class McAnalysis:
@@ -396,7 +397,10 @@ class McAnalysis:
         with h5py.File(inputFile, "r") as h5f:
             for key in h5f[str(self.resultIndex.nxsEntryPoint / "model")].keys():
                 if "repetition" in key:
-                    self._repetitionList.append(int(key.strip("repetition")))
+                    # the optimization state is stored last, skip it if that didn't complete
+                    optPath = self.resultIndex.nxsEntryPoint / "optimization" / key
+                    if all(str(optPath / optKey) in h5f for optKey in McOpt.loadKeys):
+                        self._repetitionList.append(int(key.strip("repetition")))
         print(f"{len(self._repetitionList)} repetitions found in McSAS file {inputFile}")
 
     def store(self, filename: Path) -> None:
-- 
2.43.0


From 815a25f8e55961deae754623c8898edd0d7f4ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 14/31] fix: store all of a run below one result index

Model and settings went below the index given to McHat, the optimization below the one given to
run() (1 by default): a result that could not be read, or parts of another one overwritten.
---
 src/mcsas3/mc_hat.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 412e2a9..d516858 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -96,10 +96,16 @@ class McHat:
                     np.pi / np.min(measData["Q"]),
                 ]
 
-    def run(self, measData: dict, filename: Path, resultIndex: int = 1) -> None:
+    def run(self, measData: dict, filename: Path, resultIndex: Optional[int] = None) -> None:
         """runs the full sequence: multiple repetitions of optimizations, to be parallelized.
         This probably needs to be taken out of core, and into a new parent"""
 
+        # model, optimization and settings have to be stored below the same result index
+        if resultIndex is None:
+            resultIndex = self.resultIndex.resultIndex
+        self.resultIndex = ResultIndex(resultIndex)
+        self._optArgs["resultIndex"] = self._modelArgs["resultIndex"] = resultIndex
+
         # ensure the fit parameter limits are filled in based on the data limits if auto
         self.fillFitParameterLimits(measData)
 
-- 
2.43.0


From 7c149a3ee0651d177e23ff77c7c4078256fc8a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 15/31] fix: 2D data keeps exactly the valid pixels within the
 requested limits

---
 src/mcsas3/mc_data_2d.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mcsas3/mc_data_2d.py b/src/mcsas3/mc_data_2d.py
index c1f4842..9f3440e 100644
--- a/src/mcsas3/mc_data_2d.py
+++ b/src/mcsas3/mc_data_2d.py
@@ -114,16 +114,20 @@ class McData2D(McData):
 
         # a0l, a0h, a1l, a1h = 200, 600, 300, 700
         self.clippedData = dict()
-        self.clippedData["I2D"] = Int[Q0Lim[0] : Q0Lim[1], Q1Lim[0] : Q1Lim[1]]
-        self.clippedData["mask2D"] = newMask[Q0Lim[0] : Q0Lim[1], Q1Lim[0] : Q1Lim[1]]
-        self.clippedData["ISigma2D"] = ISigma[Q0Lim[0] : Q0Lim[1], Q1Lim[0] : Q1Lim[1]]
-        self.clippedData["Q0Crop2D"] = Q0[Q0Lim[0] : Q0Lim[1], Q1Lim[0] : Q1Lim[1]]
-        self.clippedData["Q1Crop2D"] = Q1[Q0Lim[0] : Q0Lim[1], Q1Lim[0] : Q1Lim[1]]
+        # the crop limits are the first and the last row or column to keep
+        crop = (slice(Q0Lim[0], Q0Lim[1] + 1), slice(Q1Lim[0], Q1Lim[1] + 1))
+        self.clippedData["I2D"] = Int[crop]
+        self.clippedData["mask2D"] = newMask[crop]
+        self.clippedData["ISigma2D"] = ISigma[crop]
+        self.clippedData["Q0Crop2D"] = Q0[crop]
+        self.clippedData["Q1Crop2D"] = Q1[crop]
 
         self.clippedData["kansas"] = self.clippedData["I2D"].shape
         # remove infinite intensities and zero-uncertainty datapoints as well (add to mask):
         bArr = np.invert((np.isinf(self.clippedData["I2D"]) | (self.clippedData["ISigma2D"] == 0)))
-        self.clippedData["invMask"] = bArr * np.invert(self.clippedData["mask2D"]).astype(bool)
+        # the crop envelope contains pixels outside the requested limits as well, withinLimits
+        # considers the mask already
+        self.clippedData["invMask"] = bArr & withinLimits[crop]
 
         self.clippedData["I"] = (self.clippedData["I2D"][self.clippedData["invMask"]]).flatten()
         self.clippedData["ISigma"] = (
-- 
2.43.0


From 3eee6bfb0099e2dc1e4589819c9902ca14dc9849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 16/31] fix: the combined command line tool runs the optimizer
 and the histogrammer

---
 src/mcsas3/__main__.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/mcsas3/__main__.py b/src/mcsas3/__main__.py
index 3ff3841..cd1a526 100644
--- a/src/mcsas3/__main__.py
+++ b/src/mcsas3/__main__.py
@@ -114,25 +114,23 @@ if __name__ == "__main__":
 
     adict = vars(args)
     # split arguments into two dictionaries, one for the optimizer and one for the histogrammer
-    adict_optimize = [
-        {
-            k: v
-            for k, v in adict.items()
-            if k
-            in [
-                "dataFile",
-                "resultFile",
-                "readConfigFile",
-                "runConfigFile",
-                "resultIndex",
-                "deleteIfExists",
-                "nThreads",
-            ]
-        }
-    ]
-    adict_histogram = [
-        {k: v for k, v in adict.items() if k in ["resultFile", "histConfigFile", "resultIndex"]}
-    ]
+    adict_optimize = {
+        k: v
+        for k, v in adict.items()
+        if k
+        in [
+            "dataFile",
+            "resultFile",
+            "readConfigFile",
+            "runConfigFile",
+            "resultIndex",
+            "deleteIfExists",
+            "nThreads",
+        ]
+    }
+    adict_histogram = {
+        k: v for k, v in adict.items() if k in ["resultFile", "histConfigFile", "resultIndex"]
+    }
     try:
         McSAS3_cli_optimize(**adict_optimize)
         McSAS3_cli_histogram(**adict_histogram)
-- 
2.43.0


From ccd146f75b9d7b189b115917c5e4b9f69645f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 17/31] fix: a run replaces the repetitions of an earlier one
 instead of mixing with them

---
 src/mcsas3/mc_hat.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index d516858..4164df4 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -6,6 +6,7 @@ from io import StringIO
 from pathlib import Path, PurePosixPath
 from typing import Optional
 
+import h5py
 import numpy as np
 
 from mcsas3.mc_hdf import ResultIndex, loadKVPairs, storeKVPairs
@@ -109,6 +110,9 @@ class McHat:
         # ensure the fit parameter limits are filled in based on the data limits if auto
         self.fillFitParameterLimits(measData)
 
+        # the result of an earlier run is replaced, its repetitions must not mix with the new ones
+        self.removeRepetitions(filename)
+
         if (self.nCores == 1) or (self.nRep == 1):
             for rep in range(self.nRep):
                 self.runOnce(measData, filename, rep, resultIndex=resultIndex)
@@ -138,6 +142,19 @@ class McHat:
             for output in sorted(outputs, key=lambda x: x[0]):
                 print(output)
 
+    def removeRepetitions(self, filename: Path) -> None:
+        """removes the repetitions stored below the current result index, if there are any"""
+        if not Path(filename).is_file():
+            return
+        with h5py.File(filename, "a") as h5f:
+            for name in ("model", "optimization"):
+                path = str(self.resultIndex.nxsEntryPoint / name)
+                if path not in h5f:
+                    continue
+                for key in list(h5f[path]):
+                    if key.startswith("repetition"):
+                        del h5f[path][key]
+
     def runOnce(
         self,
         measData: dict,
-- 
2.43.0


From d7455ce91ee6f4d1ede49475589e13c232fa5921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 18/31] fix: result indices other than 1 are in effect

---
 src/mcsas3/mc_hdf.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 7e3e167..ed37ea7 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -24,9 +24,6 @@ class ResultIndex(object):
         ],
     )
 
-    def __attrs_post_init__(self, resultIndex: int = 1):
-        self.resultIndex = resultIndex
-
     @property
     def nxsEntryPoint(self):
         return PurePosixPath(f"/analyses/MCResult{self.resultIndex}")
-- 
2.43.0


From e4de7b8ea36078636dec538df8e684ce90f4b2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 19/31] fix: load dictionaries with empty arrays

---
 src/mcsas3/mc_hdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index ed37ea7..6d9f9a0 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -69,7 +69,7 @@ def loadKV(filename: Path, path: PurePosixPath, datatype=None, default=None, dbg
                     value.update({key: subDict})
                 else:
                     value.update({key: keyValue[()]})
-                    if isinstance(keyValue[()], np.ndarray):
+                    if isinstance(keyValue[()], np.ndarray) and keyValue.size > 0:
                         if isinstance(keyValue[()][0], bytes):
                             value.update({key: np.array([i.decode() for i in keyValue[()]])})
 
-- 
2.43.0


From c0d824707022d686c04ef5b381d9ff034b0f6da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:04 +0000
Subject: [PATCH 20/31] fix: rebinning leaves out points at or below zero Q
 instead of failing

---
 src/mcsas3/mc_data_1d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index 4a6e728..ed92d6b 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -132,7 +132,8 @@ class McData1D(McData):
         if IEmin is None:
             IEmin = self.IEmin
 
-        qMin = self.clippedData.Q.dropna().min()
+        # there is no logarithm of anything else
+        qMin = self.clippedData.Q[self.clippedData.Q > 0].min()
         qMax = self.clippedData.Q.dropna().max()
 
         # prepare bin edges:
-- 
2.43.0


From e87e8b9733b12b7a5d630a98895faf732dea9e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 21/31] fix: storing a model does not mix its parameters with
 those of another one stored before

---
 src/mcsas3/mc_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index 1d0c8bd..4931506 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -482,8 +482,8 @@ class McModel:
         assert filename is not None
 
         path = self.resultIndex.nxsEntryPoint / "model"
-        storeKVPairs(filename, path / "fitParameterLimits", self.fitParameterLimits.items())
-        storeKVPairs(filename, path / "staticParameters", self.staticParameters.items())
+        storeKV(filename, path / "fitParameterLimits", self.fitParameterLimits)
+        storeKV(filename, path / "staticParameters", self.staticParameters)
         storeKV(filename, path=path / "modelName", value=str(self.modelName))  # store modelName
 
         psDict = self.parameterSet.copy().to_dict(orient="split")
-- 
2.43.0


From a31983ce54e783f70008374c70cf8db19e294439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 22/31] fix: load results of models without static parameters

---
 src/mcsas3/mc_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index 4931506..f08acc5 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -463,7 +463,9 @@ class McModel:
         path = self.resultIndex.nxsEntryPoint / "model"
 
         self.fitParameterLimits = loadKV(loadFromFile, path / "fitParameterLimits", datatype="dict")
-        self.staticParameters = loadKV(loadFromFile, path / "staticParameters", datatype="dict")
+        self.staticParameters = loadKV(
+            loadFromFile, path / "staticParameters", datatype="dict", default={}
+        )
         self.modelName = loadKV(loadFromFile, path / "modelName", datatype="str")  # .decode('utf8')
         path /= f"repetition{loadFromRepetition}"
         self.parameterSet = loadKV(loadFromFile, path / "parameterSet", datatype="dictToPandas")
-- 
2.43.0


From f8c608ba7ef278bd985280df5c11b6088aee1ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 23/31] fix: count the contributions at the limits of a
 logarithmic histogram range

---
 src/mcsas3/mc_model_histogrammer.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/mcsas3/mc_model_histogrammer.py b/src/mcsas3/mc_model_histogrammer.py
index 244bdf5..9d2e864 100644
--- a/src/mcsas3/mc_model_histogrammer.py
+++ b/src/mcsas3/mc_model_histogrammer.py
@@ -202,11 +202,8 @@ class McModelHistogrammer:
         if histRange.binScale == "linear":
             binEdges = np.linspace(histRange.rangeMin, histRange.rangeMax, histRange.nBin + 1)
         elif histRange.binScale == "log":
-            binEdges = np.logspace(
-                np.log10(histRange.rangeMin),
-                np.log10(histRange.rangeMax),
-                histRange.nBin + 1,
-            )
+            # the outer edges have to be exactly the limits, contributions right there are counted
+            binEdges = np.geomspace(histRange.rangeMin, histRange.rangeMax, histRange.nBin + 1)
         elif histRange.binScale == "auto":
             assert isinstance(
                 parameterSet, pandas.DataFrame
-- 
2.43.0


From adf692753627879f58bea4506f7c948535a777d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 24/31] fix: histogramming replaces the histograms of
 repetitions no longer in the result

---
 src/mcsas3/mc_analysis.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mcsas3/mc_analysis.py b/src/mcsas3/mc_analysis.py
index cd54102..a22e225 100644
--- a/src/mcsas3/mc_analysis.py
+++ b/src/mcsas3/mc_analysis.py
@@ -146,6 +146,8 @@ class McAnalysis:
 
         print("Getting List of repetitions...")
         self.getNRep(inputFile)
+        if store:
+            self.removeHistograms(inputFile)
         print("Histogramming every repetition and extracting elements to average...")
         self.histAndLoadReps(inputFile, store, resultIndex)
         print("Averaging population modes...")
@@ -403,6 +405,15 @@ class McAnalysis:
                         self._repetitionList.append(int(key.strip("repetition")))
         print(f"{len(self._repetitionList)} repetitions found in McSAS file {inputFile}")
 
+    def removeHistograms(self, filename: Path) -> None:
+        """Removes the requested ranges as histogrammed before, possibly for repetitions
+        which are not part of the result anymore."""
+        with h5py.File(filename, "a") as h5f:
+            for histIndex in self._histRanges.index:
+                path = self.resultIndex.nxsEntryPoint / "histograms" / f"histRange{histIndex}"
+                if str(path) in h5f:
+                    del h5f[str(path)]
+
     def store(self, filename: Path) -> None:
         # store averaged histograms, for arhcival purposes only,
         # these settings are not planned to be reused.:
-- 
2.43.0


From 64ecdd55a55931a385219dc081248e379c627ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 25/31] fix: read 2D data with the zero Q plane first

---
 src/mcsas3/mc_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_data.py b/src/mcsas3/mc_data.py
index 9f93f56..26ca9f9 100644
--- a/src/mcsas3/mc_data.py
+++ b/src/mcsas3/mc_data.py
@@ -281,8 +281,9 @@ class McData:
                 [self.rawData["Q"][i, :, :].any() for i in range(self.rawData["Q"].shape[0])]
             )
             self.rawData["Q"] = self.rawData["Q"][QxyIndices, :, :].squeeze()
-            self.rawData["Qx"] = self.rawData["Q"][QxyIndices[1], :, :].squeeze()
-            self.rawData["Qy"] = self.rawData["Q"][QxyIndices[0], :, :].squeeze()
+            # only these are left
+            self.rawData["Qx"] = self.rawData["Q"][1, :, :].squeeze()
+            self.rawData["Qy"] = self.rawData["Q"][0, :, :].squeeze()
             self.rawData2D = self.rawData.copy()  # intermediate storage of original data
             # but we also need to prepare a Pandas-compatible list-format data
             del self.rawData["Q"]
-- 
2.43.0


From 9aa977605f0fd8674265abd7a1132866a38b5960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 26/31] fix: storing a model or value leaves what was stored
 before until it is replaced

---
 src/mcsas3/mc_hdf.py   | 12 ++++++++----
 src/mcsas3/mc_model.py | 11 +++++++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 6d9f9a0..88563e9 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -114,8 +114,6 @@ def storeKV(filename: Path, path: PurePosixPath, value=None) -> None:
     with h5py.File(filename, "a") as h5f:
         h5g = h5f.require_group(str(path))
         dset, unit = None, None
-        if key in h5g:  # replace it, an existing dataset would keep its type, shape or value
-            del h5g[key]
         if isinstance(value, pint.Quantity):
             value, unit = value.m, value.u
         if isinstance(value, Path):
@@ -127,10 +125,16 @@ def storeKV(filename: Path, path: PurePosixPath, value=None) -> None:
         if isinstance(value, (np.ndarray, pandas.Series)):
             if str(value.dtype).startswith("<U") or str(value.dtype).startswith("object"):
                 value = value.astype(h5py.special_dtype(vlen=str))
-            dset = h5g.create_dataset(key, data=value, shape=value.shape, dtype=value.dtype)
+            dset = h5g.create_dataset(None, data=value, shape=value.shape, dtype=value.dtype)
 
         elif value is not None:
-            dset = h5g.create_dataset(key, data=value)
+            dset = h5g.create_dataset(None, data=value)
 
         if unit is not None:
             dset.attrs["unit"] = str(unit)
+
+        # replace it now, an existing dataset would keep its type, shape or value
+        if key in h5g:
+            del h5g[key]
+        if dset is not None:
+            h5g[key] = dset
diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index f08acc5..fe96d81 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -1,6 +1,7 @@
 from pathlib import Path
 from typing import List, Optional, Tuple
 
+import h5py
 import numpy as np
 import pandas
 import sasmodels
@@ -484,8 +485,14 @@ class McModel:
         assert filename is not None
 
         path = self.resultIndex.nxsEntryPoint / "model"
-        storeKV(filename, path / "fitParameterLimits", self.fitParameterLimits)
-        storeKV(filename, path / "staticParameters", self.staticParameters)
+        for key in ("fitParameterLimits", "staticParameters"):
+            values = getattr(self, key)
+            storeKVPairs(filename, path / key, values.items())
+            # leave only these, but without interruption for the repetitions stored before
+            with h5py.File(filename, "a") as h5f:
+                h5g = h5f.require_group(str(path / key))
+                for name in set(h5g) - set(values):
+                    del h5g[name]
         storeKV(filename, path=path / "modelName", value=str(self.modelName))  # store modelName
 
         psDict = self.parameterSet.copy().to_dict(orient="split")
-- 
2.43.0


From b95b728c5406291e319c35bdc34cae45a21a9d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 27/31] fix: a seed given in the run configuration file is used
 instead of failing the run

---
 src/mcsas3/cli_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/cli_tools.py b/src/mcsas3/cli_tools.py
index bfd1958..eedee7c 100644
--- a/src/mcsas3/cli_tools.py
+++ b/src/mcsas3/cli_tools.py
@@ -56,8 +56,10 @@ class McSAS3_cli_optimize(object):
             optDict = yaml.safe_load(f)
         if self.nThreads > 0:
             optDict["nCores"] = self.nThreads
+        # different random numbers for each run, unless configured otherwise
+        optDict.setdefault("seed", None)
         # run the Monte Carlo method
-        mh = mc_hat.McHat(seed=None, resultIndex=self.resultIndex, **optDict)
+        mh = mc_hat.McHat(resultIndex=self.resultIndex, **optDict)
         md = mds.measData.copy()
         mh.run(md, self.resultFile, resultIndex=self.resultIndex)
 
-- 
2.43.0


From 7fc928a0e4bc8cb3fc60cde1f6dec4f8ecdafd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:48 +0000
Subject: [PATCH 28/31] fix: result card of histogram ranges which are not
 numbered 0..n-1

---
 src/mcsas3/mc_plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mcsas3/mc_plot.py b/src/mcsas3/mc_plot.py
index 329df55..3aafba8 100644
--- a/src/mcsas3/mc_plot.py
+++ b/src/mcsas3/mc_plot.py
@@ -82,7 +82,7 @@ class McPlot:
 
         # histogram:
         for n, key in enumerate(mcres._averagedHistograms.keys()):
-            histDataFrame = mcres._averagedHistograms[n]
+            histDataFrame = mcres._averagedHistograms[key]
             plt.sca(ahs[1, 1 + n])
             plt.bar(
                 histDataFrame["xMean"],
@@ -91,14 +91,14 @@ class McPlot:
                 width=histDataFrame["xWidth"],
                 yerr=histDataFrame["yStd"],
             )
-            plt.xscale(mcres._histRanges.loc[n, "binScale"])
-            plt.xlabel(mcres._histRanges.loc[n, "parameter"])
+            plt.xscale(mcres._histRanges.loc[key, "binScale"])
+            plt.xlabel(mcres._histRanges.loc[key, "parameter"])
             # plt.xlim(30* FPFactor, 34* FPFactor)
             plt.ylabel("Vol. frac. \n (relative or absolute)")
 
             # get report, some string replacements to prevent errors of
             # "missing Glyph (9), which is the tab"
-            histReport = mcres.debugReport(n).split("\n", 1)[
+            histReport = mcres.debugReport(key).split("\n", 1)[
                 1
             ]  # .replace('      ', ' ').replace(' 	 ', ' ').replace('----------------','')
             plt.sca(ahs[0, 1 + n])  # top right
-- 
2.43.0


From 309ab533ec2dafb76ce5da750a086fb891bd6175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:48 +0000
Subject: [PATCH 29/31] fix: built-in models shared their default parameters
 between instances

---
 src/mcsas3/mc_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index fe96d81..3be8371 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -24,7 +24,7 @@ class sphereParameters(object):
     }
 
     def __init__(self) -> None:
-        pass
+        self.defaults = dict(self.defaults)  # updated with the static parameters of a model
 
 
 # ibid.
@@ -33,7 +33,7 @@ class sphereInfo(object):
     parameters = sphereParameters()
 
     def __init__(self) -> None:
-        pass
+        self.parameters = sphereParameters()
 
 
 class mcsasSphereModel(object):
@@ -99,7 +99,7 @@ class simParameters(object):
     }
 
     def __init__(self):
-        pass
+        self.defaults = dict(self.defaults)  # updated with the static parameters of a model
 
 
 # ibid.
@@ -108,7 +108,7 @@ class simInfo(object):
     parameters = simParameters()
 
     def __init__(self):
-        pass
+        self.parameters = simParameters()
 
 
 # ibid.
-- 
2.43.0


From f46380fe18caa7d5c6679b119206995efc5a4cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:06 +0000
Subject: [PATCH 30/31] fix: sphere and simulated-data models use the magnitude
 of Q for 2D data

---
 src/mcsas3/mc_model.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index 3be8371..fd6933b 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -12,6 +12,13 @@ from scipy import interpolate
 from mcsas3.mc_hdf import ResultIndex, loadKV, storeKV, storeKVPairs
 
 
+def scalarQ(measQ: List[np.ndarray]) -> np.ndarray:
+    """the magnitude of Q, as needed by isotropic models, for 1D and 2D data alike"""
+    if len(measQ) == 1:
+        return measQ[0]
+    return np.sqrt(sum(np.square(component) for component in measQ))
+
+
 # TODO: perhaps better defined as a dataclass with attrs
 class sphereParameters(object):
     # micro-class to mimick the nested structure of SasModels in simulation model:
@@ -73,7 +80,7 @@ class mcsasSphereModel(object):
 
     def kernelfunc(self, **parDict: dict) -> Tuple[np.ndarray, np.ndarray]:
         # print('stop here. see what we have. return I, V')
-        qr = self.measQ[0] * parDict["radius"]
+        qr = scalarQ(self.measQ) * parDict["radius"]
         F = 3.0 * (np.sin(qr) - qr * np.cos(qr)) / (qr**3.0)
         V = (np.pi * 4.0 / 3.0) * parDict["radius"] ** 3
         Int = (
@@ -210,9 +217,9 @@ class McSimPseudoModel(object):
         Rscale: float = 1.0,  # scaling factor for the data. fitting parameter.
     ) -> Tuple[np.ndarray, np.ndarray]:
         # calculate scaled intensity:
-        qScaled = self.measQ[0] * Rscale
+        qScaled = scalarQ(self.measQ) * Rscale
         scaledSim = {
-            "Q": [self.measQ[0]],
+            "Q": self.measQ,
             "I": self.Ipolator(qScaled),
             "ISigma": self.ISpolator(qScaled),
         }
-- 
2.43.0


From db140dbd8a84602ee9de5bc53a771b36731e9d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:47 +0000
Subject: [PATCH 31/31] fix: automatic fit limits for 2D data are those of the
 magnitude of Q

---
 src/mcsas3/mc_hat.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 4164df4..e4f6154 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -12,7 +12,7 @@ import numpy as np
 from mcsas3.mc_hdf import ResultIndex, loadKVPairs, storeKVPairs
 
 from .mc_core import McCore
-from .mc_model import McModel
+from .mc_model import McModel, scalarQ
 from .mc_opt import McOpt
 
 STORE_LOCK = None
@@ -89,12 +89,13 @@ class McHat:
                     ' to "auto"'
                 )
                 # auto-fill values
+                Q = scalarQ(measData["Q"])
                 assert (
-                    np.min(measData["Q"]) > 0
+                    np.min(Q) > 0
                 ), "for auto-scaling of measurement limits, the smallest Q value cannot be zero"
                 self._modelArgs["fitParameterLimits"][key] = [
-                    np.pi / np.max(measData["Q"]),
-                    np.pi / np.min(measData["Q"]),
+                    np.pi / np.max(Q),
+                    np.pi / np.min(Q),
                 ]
 
     def run(self, measData: dict, filename: Path, resultIndex: Optional[int] = None) -> None:
-- 
2.43.0

