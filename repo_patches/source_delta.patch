From b267bd1b3446303cbc9f574af677300d42884caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 01/19] fix: deep copy metadata so processes and writers leave
 their input's history untouched

---
 resistics/decimate.py |  2 +-
 resistics/spectra.py  |  2 +-
 resistics/time.py     | 12 ++++++------
 resistics/window.py   |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index 9613dda..394ee60 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -829,7 +829,7 @@ class DecimatedDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in dec_data.data.items()})
-        metadata = dec_data.metadata.copy()
+        metadata = dec_data.metadata.copy(deep=True)
         metadata.history.add_record(self._get_record(dir_path, type(dec_data)))
         metadata.write(metadata_path)
 
diff --git a/resistics/spectra.py b/resistics/spectra.py
index 2ccd68d..a6b0dea 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -788,7 +788,7 @@ class SpectraDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in spec_data.data.items()})
-        metadata = spec_data.metadata.copy()
+        metadata = spec_data.metadata.copy(deep=True)
         metadata.history.add_record(self._get_record(dir_path, type(spec_data)))
         metadata.write(metadata_path)
 
diff --git a/resistics/time.py b/resistics/time.py
index 6c21864..918e2a7 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1139,7 +1139,7 @@ class TimeWriterNumpy(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data.npy"
         np.save(data_path, time_data.data)
-        metadata = time_data.metadata.copy()
+        metadata = time_data.metadata.copy(deep=True)
         for chan in time_data.metadata.chans:
             metadata[chan].data_files = [data_path.name]
         metadata.history.add_record(self._get_record(dir_path, type(time_data)))
@@ -1173,7 +1173,7 @@ class TimeWriterAscii(ResisticsWriter):
             raise WriteError(dir_path, "Unable to write to directory, check logs")
         logger.info(f"Writing time ASCII data to {dir_path}")
         metadata_path = dir_path / "metadata.json"
-        metadata = time_data.metadata.copy()
+        metadata = time_data.metadata.copy(deep=True)
         for chan in time_data.metadata.chans:
             chan_path = dir_path / f"{chan.lower()}.ascii"
             np.savetxt(chan_path, time_data[chan], fmt="%.6f", newline="\n")
@@ -1300,7 +1300,7 @@ class Subsection(TimeProcess):
         )
         messages = [f"Subection from sample {from_sample} to {to_sample}"]
         messages.append(f"Adjusted times {str(from_time)} to {str(to_time)}")
-        metadata = time_data.metadata.copy()
+        metadata = time_data.metadata.copy(deep=True)
         metadata = adjust_time_metadata(metadata, fs, from_time, n_samples=n_samples)
         data = np.array(time_data.data[:, from_sample : to_sample + 1])
         record = self._get_record(messages)
@@ -1970,7 +1970,7 @@ class Resample(TimeProcess):
         data = data.astype(time_data.data.dtype)
         # adjust headers and
         n_samples = data.shape[1]
-        metadata = time_data.metadata.copy()
+        metadata = time_data.metadata.copy(deep=True)
         metadata = adjust_time_metadata(
             metadata, self.new_fs, time_data.metadata.first_time, n_samples=n_samples
         )
@@ -2066,7 +2066,7 @@ class Decimate(TimeProcess):
         new_fs = fs / self.factor
         messages.append(f"Sampling frequency adjusted from {fs} to {new_fs}")
         n_samples = data.shape[1]
-        metadata = time_data.metadata.copy()
+        metadata = time_data.metadata.copy(deep=True)
         metadata = adjust_time_metadata(
             metadata, new_fs, time_data.metadata.first_time, n_samples=n_samples
         )
@@ -2256,7 +2256,7 @@ class ShiftTimestamps(TimeProcess):
         x_shift = np.arange(0, n_samples, dtype=time_data.data.dtype) + norm_shift
         interp_fnc = interp1d(x, time_data.data, axis=1, copy=False)
         data = interp_fnc(x_shift)
-        metadata = time_data.metadata.copy()
+        metadata = time_data.metadata.copy(deep=True)
         metadata = adjust_time_metadata(
             metadata, metadata.fs, first_time, n_samples=n_samples
         )
diff --git a/resistics/window.py b/resistics/window.py
index 76d78a2..ba402f8 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1559,7 +1559,7 @@ class WindowedDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in win_data.data.items()})
-        metadata = win_data.metadata.copy()
+        metadata = win_data.metadata.copy(deep=True)
         metadata.history.add_record(self._get_record(dir_path, type(win_data)))
         metadata.write(metadata_path)
 
-- 
2.43.0


From 5eacc37194c8686693341cbeaf6c4d45c37587db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 02/19] fix: leave dictionaries given to validate and
 get_time_metadata unchanged

---
 resistics/common.py    | 1 +
 resistics/time.py      | 3 +--
 resistics/transfunc.py | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/resistics/common.py b/resistics/common.py
index ab9a3cc..9f6de07 100644
--- a/resistics/common.py
+++ b/resistics/common.py
@@ -816,6 +816,7 @@ class ResisticsProcess(ResisticsModel):
             )
         if "name" not in value:
             raise KeyError("No name provided for initialisation of process")
+        value = dict(value)
         name = value.pop("name")
         try:
             return cls._types[name](**value)
diff --git a/resistics/time.py b/resistics/time.py
index 918e2a7..1e4d955 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -367,8 +367,7 @@ def get_time_metadata(
     """
     chans = time_dict["chans"]
     chans_metadata = {chan: ChanMetadata(**chans_dict[chan]) for chan in chans}
-    time_dict["chans_metadata"] = chans_metadata
-    return TimeMetadata(**time_dict)
+    return TimeMetadata(**{**time_dict, "chans_metadata": chans_metadata})
 
 
 def adjust_time_metadata(
diff --git a/resistics/transfunc.py b/resistics/transfunc.py
index 016ba2b..1e4efd9 100644
--- a/resistics/transfunc.py
+++ b/resistics/transfunc.py
@@ -253,6 +253,7 @@ class TransferFunction(Metadata):
         if "name" not in value:
             raise KeyError("No name provided for initialisation of TransferFunction")
         # check if it is a TransferFunction
+        value = dict(value)
         name = value.pop("name")
         if name == "TransferFunction":
             return cls(**value)
-- 
2.43.0


From 0a1d4825076e83d8900f93e2425cbf0333226ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 03/19] fix: shift timestamps using sample positions that do
 not lose precision in the data type

---
 resistics/time.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index 1e4d955..cac2975 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -2251,10 +2251,10 @@ class ShiftTimestamps(TimeProcess):
         messages.append(f"Last time: {str(metadata.last_time)} -> {str(last_time)}")
 
         # shift data
-        x = np.arange(0, metadata.n_samples, dtype=time_data.data.dtype)
-        x_shift = np.arange(0, n_samples, dtype=time_data.data.dtype) + norm_shift
+        x = np.arange(0, metadata.n_samples)
+        x_shift = np.arange(0, n_samples) + norm_shift
         interp_fnc = interp1d(x, time_data.data, axis=1, copy=False)
-        data = interp_fnc(x_shift)
+        data = interp_fnc(x_shift).astype(np.result_type(time_data.data, np.float32))
         metadata = time_data.metadata.copy(deep=True)
         metadata = adjust_time_metadata(
             metadata, metadata.fs, first_time, n_samples=n_samples
-- 
2.43.0


From 0ef7cac3fd79d5dc0ae10cb0711aebf40c4e913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 04/19] fix: leave channels without a function unchanged in
 ApplyFunction

---
 resistics/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/time.py b/resistics/time.py
index cac2975..3c6e223 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -2344,7 +2344,7 @@ class ApplyFunction(TimeProcess):
         """
         logger.info(f"Applying custom functions to channels {list(self.fncs.keys())}")
         messages = []
-        data = np.empty(shape=time_data.data.shape)
+        data = time_data.data.astype(np.float64)
         for chan, fnc in self.fncs.items():
             if chan in time_data.metadata.chans:
                 messages.append(f"Applying custom function to {chan}")
-- 
2.43.0


From 0053b307b4c4d56f87480a0fc35a0942a37ae15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 05/19] fix: compare the normalised notch band with the
 normalised nyquist

---
 resistics/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index 3c6e223..08c5369 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1868,9 +1868,9 @@ class Notch(TimeProcess):
         band = 0.1 * time_data.metadata.fs if self.band is None else self.band
         low = (self.notch - (band / 2)) / nyquist
         high = (self.notch + (band / 2)) / nyquist
-        if high > nyquist:
+        if high > 1:
             logger.debug("Band high {high} > nyquist {nyquist}. Setting to nyquist")
-            high = nyquist
+            high = 1
         logger.info(f"Notch filtering at {self.notch} Hz with bandwidth {band} Hz")
         sos = butter(
             self.order, (low, high), btype="bandstop", analog=False, output="sos"
-- 
2.43.0


From 94a957c97192597fb1d328b9962bf10f7de6e025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 06/19] fix: keep the channel axis when reading single channel
 ascii data

---
 resistics/time.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resistics/time.py b/resistics/time.py
index 08c5369..c3ec716 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1048,6 +1048,7 @@ class TimeReaderAscii(TimeReaderJSON):
             delimiter=self.delimiter,
             skiprows=read_from + self.n_header,
             max_rows=n_samples,
+            ndmin=2,
         )
         data = data.transpose()
         metadata = self._get_return_metadata(metadata, read_from, read_to)
-- 
2.43.0


From 9f102240e124b4ec9f05ed4709bf401d5620e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 07/19] fix: get the window of a global index by subtracting
 the index offset

---
 resistics/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/window.py b/resistics/window.py
index ba402f8..611c9c0 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1142,7 +1142,7 @@ class WindowedData(ResisticsData):
             Window data
         """
         index_offset = self.metadata.levels_metadata[level].index_offset
-        return self.get_local(level, global_win + index_offset)
+        return self.get_local(level, global_win - index_offset)
 
     def get_chan(self, level: int, chan: str) -> np.ndarray:
         """
-- 
2.43.0


From 5b712820e9031bd50a85e29b706d8f32b1e1e455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 08/19] fix: record the reference time that WindowerTarget
 windows are relative to

---
 resistics/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/window.py b/resistics/window.py
index 611c9c0..0cebaa1 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1492,7 +1492,7 @@ class WindowerTarget(Windower):
             )
             data[ilevel] = win_level_data
             win_levels_metadata.append(win_level_metadata)
-        metadata_dict["ref_time"] = metadata_dict["first_time"]
+        metadata_dict["ref_time"] = ref_time
         metadata = self._get_metadata(metadata_dict, win_levels_metadata)
         metadata.history.add_record(self._get_record(messages))
         logger.info("Windowing completed")
-- 
2.43.0


From 8c79141e95c09107644a1eb2d64e21fe862cbeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 09/19] fix: list the sampling frequencies of the windowed
 levels only

---
 resistics/window.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resistics/window.py b/resistics/window.py
index 0cebaa1..d3c2dc9 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1415,6 +1415,7 @@ class Windower(ResisticsProcess):
     ) -> WindowedMetadata:
         """Get the metadata for the windowed data"""
         metadata_dict.pop("file_info")
+        metadata_dict["fs"] = [x.fs for x in levels_metadata]
         metadata_dict["n_levels"] = len(levels_metadata)
         metadata_dict["levels_metadata"] = levels_metadata
         return WindowedMetadata(**metadata_dict)
-- 
2.43.0


From 60775b3336bfd76acad567dfad36e5105a8624c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 10/19] fix: reject negative levels when getting decimated
 timestamps

---
 resistics/decimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index 394ee60..fc5e129 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -651,7 +651,7 @@ class DecimatedData(ResisticsData):
         """
         from resistics.sampling import datetime_array, datetime_array_estimate
 
-        if level >= self.metadata.n_levels:
+        if level < 0 or level >= self.metadata.n_levels:
             raise ValueError(f"Level {level} not <= max {self.metadata.n_levels}")
         fnc = datetime_array_estimate if estimate else datetime_array
         level_metadata = self.metadata.levels_metadata[level]
-- 
2.43.0


From 649e2c4a0a833ac02214e717b4ccdfac8d5d92f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 11/19] fix: keep the channel axis when windowing single
 channel data

---
 resistics/window.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resistics/window.py b/resistics/window.py
index d3c2dc9..b04bff2 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1385,7 +1385,8 @@ class Windower(ResisticsProcess):
         to_sample = win_table.loc[win_table.index[-1], "from_sample"]
         increment_size = win_size - olap_size
         view = np.squeeze(
-            sliding_window_view(data, window_shape=(n_chans, win_size), writeable=True)
+            sliding_window_view(data, window_shape=(n_chans, win_size), writeable=True),
+            axis=0,
         )
         return view[from_sample : to_sample + 1 : increment_size]
 
-- 
2.43.0


From 8340259be0cb0054ca641409fb9c68d4096ab71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 12/19] fix: reject negative levels when getting spectra
 timestamps

---
 resistics/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index a6b0dea..d4c5e9d 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -162,7 +162,7 @@ class SpectraData(ResisticsData):
         """
         from resistics.window import get_win_starts
 
-        if level >= self.metadata.n_levels:
+        if level < 0 or level >= self.metadata.n_levels:
             raise ValueError(f"Level {level} not <= max {self.metadata.n_levels - 1}")
         level_metadata = self.metadata.levels_metadata[level]
         return get_win_starts(
-- 
2.43.0


From 9ee1bbe87185bcca54a8b8c6de9e2b8ca3f7de2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 13/19] fix: smooth spectra with the configured sigma

---
 resistics/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index d4c5e9d..e71d2b3 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -966,7 +966,7 @@ class SpectraSmootherGaussian(SpectraProcess):
         messages = [f"Smoothing frequencies with gaussian filter, sigma {self.sigma}"]
         for ilevel in range(spec_data.metadata.n_levels):
             data[ilevel] = ndimage.gaussian_filter1d(
-                spec_data.get_level(ilevel), 1, axis=-1
+                spec_data.get_level(ilevel), self.sigma, axis=-1
             )
             messages.append(f"Smoothed level {ilevel} with gaussian filter")
         metadata = SpectraMetadata(**spec_data.metadata.dict())
-- 
2.43.0


From 6de7997d9ee10a35e3a9bc07a12ebb0908ca4fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 14/19] fix: do not round the window coefficients to integers
 for integer data

---
 resistics/spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index e71d2b3..197a402 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -538,7 +538,8 @@ class FourierTransform(ResisticsProcess):
         # detrend and apply window
         if self.detrend is not None:
             data = signal.detrend(data, axis=-1, type=self.detrend)
-        win_coeffs = self._get_window(metadata.win_size).astype(data.dtype)
+        win_coeffs = self._get_window(metadata.win_size)
+        win_coeffs = win_coeffs.astype(np.result_type(data.dtype, np.float32))
         data = data * win_coeffs
         # perform the fft on the last axis
         return rfft(data, n=n_transform, axis=-1, norm="ortho", workers=self.workers)
-- 
2.43.0


From 4155972631e92aa29870b83eef77ae4a3dce933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 15/19] fix: calibrate data with a single frequency

---
 resistics/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/calibrate.py b/resistics/calibrate.py
index 3cfc156..f94bf7f 100644
--- a/resistics/calibrate.py
+++ b/resistics/calibrate.py
@@ -467,7 +467,7 @@ class Calibrator(ResisticsProcess):
         """
         transfunc = self._interpolate(np.array(freqs), cal_data)
         chan_data = chan_data[:, np.newaxis, :] / transfunc[np.newaxis, :]
-        return np.squeeze(chan_data)
+        return np.squeeze(chan_data, axis=1)
 
     def _interpolate(
         self, freqs: np.ndarray, cal_data: CalibrationData
-- 
2.43.0


From 1411c675ae21c7e9e7d176af9c692b50c5df361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 16/19] fix: check every project subdirectory when loading a
 project

---
 resistics/letsgo.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/resistics/letsgo.py b/resistics/letsgo.py
index e541d52..bd0f488 100644
--- a/resistics/letsgo.py
+++ b/resistics/letsgo.py
@@ -151,7 +151,6 @@ class ProjectLoader(ResisticsProcess):
         for subdir in PROJ_DIRS.values():
             subdir_path = self.dir_path / subdir
             assert_dir(subdir_path)
-            return False
         return True
 
     def _load_site(self, site_dir: Path, config: Configuration) -> Site:
-- 
2.43.0


From 5aeca0e33e8881b3c1c6ac5295d63e9317bbae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 17/19] fix: fit the Huber regression with the configured
 intercept setting

---
 resistics/regression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resistics/regression.py b/resistics/regression.py
index a428093..6fe537d 100644
--- a/resistics/regression.py
+++ b/resistics/regression.py
@@ -918,7 +918,9 @@ class SolverScikitHuber(SolverScikit):
         """Run Huber Regressor regression on the RegressionInputData"""
         from sklearn.linear_model import HuberRegressor
 
-        model = HuberRegressor(epsilon=self.epsilon)
+        model = HuberRegressor(
+            epsilon=self.epsilon, fit_intercept=self.fit_intercept
+        )
         return self._solve(regression_input, model)
 
 
-- 
2.43.0


From ee6c33553286487547d81f822a4817d6ede74b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 18/19] fix: give the masks to the window selection when
 solving a transfer function

---
 resistics/letsgo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/letsgo.py b/resistics/letsgo.py
index bd0f488..f1908d8 100644
--- a/resistics/letsgo.py
+++ b/resistics/letsgo.py
@@ -785,7 +785,7 @@ def process_evals_to_tf(
         sites.append(cross_site)
 
     dec_params = config.dec_setup.run(fs)
-    selection = Selector().run(config.name, proj, sites, dec_params)
+    selection = Selector().run(config.name, proj, sites, dec_params, masks)
     gathered_data = ProjectGather().run(
         config.name,
         proj,
-- 
2.43.0


From c452bd476ab18b66e60fc37cf054d32ac39a6c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 19/19] fix: keep the case of the sensor and serial read from
 text calibration files

---
 resistics/calibrate.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/resistics/calibrate.py b/resistics/calibrate.py
index f94bf7f..8c3a5b4 100644
--- a/resistics/calibrate.py
+++ b/resistics/calibrate.py
@@ -362,10 +362,9 @@ class SensorCalibrationTXT(SensorCalibrationReader):
         serial: str = "1"
         sensor: str = ""
         for line in lines:
-            line = line.lower()
-            if "serial" in line:
+            if "serial" in line.lower():
                 serial = line.split("=")[1].strip()
-            if "sensor" in line:
+            if "sensor" in line.lower():
                 sensor = line.split("=")[1].strip()
         return serial, sensor
 
-- 
2.43.0

