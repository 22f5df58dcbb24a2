From afea55044d5cb68e19538cecafbf2b613ac52099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:00 +0000
Subject: [PATCH 01/38] fix: copies keep positive delay and frequency multiple

---
 swprocess/activetimeseries.py | 11 +++++++----
 swprocess/sensor1c.py         | 18 +++++++++++-------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index 0502f72..c775e0d 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -150,10 +150,13 @@ class ActiveTimeSeries(TimeSeries):
 
     @classmethod
     def from_activetimeseries(cls, activetimeseries):
-        return cls(activetimeseries.amplitude,
-                   activetimeseries.dt,
-                   nstacks=activetimeseries.nstacks,
-                   delay=activetimeseries.delay)
+        obj = cls(activetimeseries.amplitude,
+                  activetimeseries.dt,
+                  nstacks=activetimeseries.nstacks)
+        # Delay may be positive after trimming.
+        obj._delay = activetimeseries.delay
+        obj._multiple = activetimeseries.multiple
+        return obj
 
     @classmethod
     def from_trace_seg2(cls, trace):
diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index 7b61624..cf53dea 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -58,16 +58,20 @@ class Sensor1C(ActiveTimeSeries):
                    "x": float, "y": float, "z": float}
         args = [opr(getattr(sensor1c, arg)) for arg, opr in arg_map.items()]
 
-        kwarg_map = {"nstacks": int, "delay": float}
-        kwargs = {key: opr(getattr(sensor1c, key))
-                  for key, opr in kwarg_map.items()}
-        return cls(*args, **kwargs)
+        obj = cls(*args, nstacks=int(sensor1c.nstacks))
+        # Delay may be positive after trimming.
+        obj._delay = float(sensor1c.delay)
+        obj._multiple = sensor1c.multiple
+        return obj
 
     @classmethod
     def from_activetimeseries(cls, activetimeseries, x, y, z):
-        return cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
-                   nstacks=activetimeseries.nstacks,
-                   delay=activetimeseries.delay)
+        obj = cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
+                  nstacks=activetimeseries.nstacks)
+        # Delay may be positive after trimming.
+        obj._delay = activetimeseries.delay
+        obj._multiple = activetimeseries.multiple
+        return obj
 
     @classmethod
     def from_trace(cls, trace,
-- 
2.43.0


From 4d0d265cfae33e825ff4ac2249113ef190bd7cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:00 +0000
Subject: [PATCH 02/38] fix: rejected zero_pad leaves the record's multiple
 unchanged

---
 swprocess/activetimeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index c775e0d..12b5e69 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -258,9 +258,9 @@ class ActiveTimeSeries(TimeSeries):
         """
         df = float(df)
         logger.info(f"zero_pad(df={df})")
-        self._multiple = 1
         if df <= 0:
             raise ValueError(f"df must be positive, currently {df}.")
+        self._multiple = 1
 
         new_nsamples_float = 1/(df*self.dt)
         new_nsamples = int(round(new_nsamples_float))
-- 
2.43.0


From 585bb7020361c4325165dbb84c0992693b943cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 03/38] fix: trim_offsets no longer stops at the first sensor
 beyond max_offset

---
 swprocess/array1d.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 7491c1f..01d4fae 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -208,9 +208,6 @@ class Array1D():
             if (offset > min_offset) and (offset < max_offset):
                 sensors.append(sensor)
 
-            if (offset > max_offset):
-                break
-
         if len(sensors) == 0:
             msg = "Removing all sensors at offsets between "
             msg += f"{min_offset} and {max_offset}, results in no sensors."
-- 
2.43.0


From 108095faefd62b02367d06164cd958fc02aa4a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 04/38] fix: mute accounts for a positive delay left by
 trimming

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 01d4fae..a8d544b 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -560,7 +560,7 @@ class Array1D():
         position = np.array(self.position())
         dt = self[0].dt
         delay = self[0].delay
-        ndelay = abs(delay/dt)
+        ndelay = -delay/dt
         nsamples = self[0].nsamples
 
         # Define starting index for each trace.
-- 
2.43.0


From 2df0c22adfb48f6a7b517e3d5e9835f7bba39415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 05/38] fix: receiver y is read from its own header field when
 the scalar is positive

---
 swprocess/sensor1c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index cf53dea..d57dc54 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -214,7 +214,7 @@ class Sensor1C(ActiveTimeSeries):
         x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
         y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         return cls.from_trace(trace,
@@ -264,7 +264,7 @@ class Sensor1C(ActiveTimeSeries):
         x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
         y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         return cls.from_trace(trace,
-- 
2.43.0


From e7646f156d1e08a8855b8cb9178019baa9fc2b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 06/38] fix: SEGY source accepts an unset coordinate scalar

---
 swprocess/array1d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index a8d544b..49c0f01 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -702,6 +702,10 @@ class Array1D():
 
                 scaleco = int(
                     stats.segy.trace_header["scalar_to_be_applied_to_all_coordinates"])
+                if scaleco == 0:
+                    msg = "Resetting scale to be applied to all coordinates from zero to one."
+                    warnings.warn(msg)
+                    scaleco = 1
 
                 int_x = int(stats.segy.trace_header["source_coordinate_x"])
                 x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
-- 
2.43.0


From 43af4752113a4e7f6faa230b73717951bd9af945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 07/38] fix: additional files are read like the first and
 stacked receiver by receiver

---
 swprocess/array1d.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 49c0f01..156668b 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -725,13 +725,19 @@ class Array1D():
             for fname in fnames[1:]:
                 with warnings.catch_warnings():
                     warnings.simplefilter("ignore")
-                    stream = obspy.read(str(fname))
+                    stream = obspy.read(str(fname), **obspy_read_kwargs)
                 nsource = parse_source(stream[0].stats)
                 if nsource != source:
                     msg = f"fname = {fname} has an incompatible source."
                     raise ValueError(msg)
-                for sensor, trace in zip(obj.sensors, stream.traces):
-                    new_sensor = Sensor1C.from_trace(trace)
+                new_sensors = [Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
+                               for trace in stream.traces]
+                if len(new_sensors) != obj.nchannels:
+                    msg = f"fname = {fname} has an incompatible number of receivers."
+                    raise ValueError(msg)
+                # Match receivers by position, as files may order them differently.
+                new_sensors, _ = cls._check_array(new_sensors, nsource)
+                for sensor, new_sensor in zip(obj.sensors, new_sensors):
                     sensor.stack_append(new_sensor)
 
         return obj
-- 
2.43.0


From 7c6a8db56e94d062917374fb4d1da3c30ba84aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 08/38] fix: to_file writes the stack count that from_files
 reads back

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 156668b..fb28f8c 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -782,7 +782,7 @@ class Array1D():
             trace.stats.su.trace_header.source_coordinate_y = rint(
                 self.source._y*1000)
             trace.stats.su.trace_header.number_of_horizontally_stacked_traces_yielding_this_trace = rint(
-                sensor.nstacks-1)
+                sensor.nstacks)
             trace.stats.su.trace_header.delay_recording_time = rint(
                 sensor.delay*1000)
             trace.stats.su.trace_header.group_coordinate_x = rint(
-- 
2.43.0


From 18297f4232fcd46b236676944e3ae001581a3d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 09/38] fix: integer source signals can be averaged

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index fb28f8c..06190ac 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -835,7 +835,7 @@ class Array1DwSource(Array1D):
         # TODO (jpv): Badly assume fnames_src is a properly formatted list.
         trace = obspy.read(str(fnames_src[0]))[src_channel]
         dt = trace.meta.delta
-        amp = trace.data
+        amp = np.array(trace.data, dtype=float)
         for fname in fnames_src[1:]:
             trace = obspy.read(str(fname))[src_channel]
             amp += trace.data
-- 
2.43.0


From cd2969136b3ee0e9693d9cbb8b590d130dd65637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 10/38] fix: correlation window of short source records starts
 at the first lag

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 06190ac..176d3da 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -872,7 +872,7 @@ class Array1DwSource(Array1D):
         # start correlation at/near zero lag position.
         src_amp = self.source.amplitude
         idx_zero = self.source.nsamples
-        idx_min, idx_max = idx_zero+idx_dx_tmin, idx_zero+idx_dx_tmax
+        idx_min, idx_max = max(idx_zero+idx_dx_tmin, 0), idx_zero+idx_dx_tmax
 
         sensors = []
         for sensor in self.sensors:
-- 
2.43.0


From 9a11e035954b2a1f84b99173945320ae20230440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:18 +0000
Subject: [PATCH 11/38] fix: SEG2 source is mapped in y like its receivers

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 176d3da..9f8ad0a 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -664,7 +664,7 @@ class Array1D():
         if _format == "SEG2":
             def parse_source(stats):
                 x = float(stats.seg2.SOURCE_LOCATION)
-                return Source(x=map_x(x), y=0, z=0)
+                return Source(x=map_x(x), y=map_y(0), z=0)
 
         elif _format == "SU":
             def parse_source(stats):
-- 
2.43.0


From c322476070ce3dcb39430ab349ec605616732995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:42 +0000
Subject: [PATCH 12/38] fix: beamformer stores a scalar power (numpy no longer
 converts 1x1 arrays)

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 6bda2cd..23e94df 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -651,7 +651,7 @@ class FDBF(AbstractWavefieldTransform):
                 steer[:, 0] = create_steering(kx)[:]
                 _power = np.dot(np.dot(np.transpose(np.conjugate(steer)),
                                        weighted_sscm), steer)
-                power[j, i] = _power
+                power[j, i] = _power[0, 0]
 
         return (frequencies, power)
 
-- 
2.43.0


From 91c8c8b7e880c621a34a35e53f2fa9a864ab0092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:42 +0000
Subject: [PATCH 13/38] fix: peaks of a complex image are picked by magnitude

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 23e94df..1665415 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -132,7 +132,7 @@ class AbstractWavefieldTransform(ABC):
 
         """
         if by == "frequency-maximum":
-            return self.velocities[np.argmax(self.power, axis=0)]
+            return self.velocities[np.argmax(np.abs(self.power), axis=0)]
         else:
             msg = f"find_peak_power by {by} not recognized, see docs for options."
             raise NotImplementedError(msg)
-- 
2.43.0


From e0c2a82763973449b34f310595884c293277ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:42 +0000
Subject: [PATCH 14/38] fix: fk transform no longer rewrites the caller's
 settings

---
 swprocess/wavefieldtransforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 1665415..1b8ae11 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -717,7 +717,8 @@ class FK(FDBF):
 
     @classmethod
     def from_array(cls, array, settings):
-        settings["fdbf-specific"]["weighting"] = "none"
-        settings["fdbf-specific"]["steering"] = "plane"
+        # Copy, so the caller's settings are not modified.
+        settings = {**settings, "fdbf-specific": {"weighting": "none",
+                                                  "steering": "plane"}}
 
         return super().from_array(array, settings)
-- 
2.43.0


From d0a3f47a6673a7fec6980dc6e761da77c18d7893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:42 +0000
Subject: [PATCH 15/38] fix: rasterized dispersion images with current
 matplotlib

---
 swprocess/wavefieldtransforms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 1b8ae11..3a15cda 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -224,8 +224,7 @@ class AbstractWavefieldTransform(ABC):
                           np.linspace(0, np.max(self.power), 21),
                           cmap=mpl.colormaps[cmap])
         if rasterize:
-            for pathcoll in img.collections:
-                pathcoll.set_rasterized(True)
+            img.set_rasterized(True)
 
         # Plot colorbar for image.
         if cax is None:
-- 
2.43.0


From 933639b80328daaa9bcdb66d1f6a6f9e7e0e6cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:42 +0000
Subject: [PATCH 16/38] fix: slant stack no longer indexes past the record on
 rounding

---
 swprocess/wavefieldtransforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 3a15cda..c8e90fe 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -465,7 +465,8 @@ class SlantStack(AbstractWavefieldTransform):
         diff = diff.reshape((len(diff), 1))
         dt = array.sensors[0].dt
         npts = tmatrix.shape[1]
-        ntaus = npts - int(np.max(position)*np.max(1/velocities)/dt) - 1
+        # Evaluated like `float_indices` below, so both round the same way.
+        ntaus = npts - int(np.max(position)/dt/np.min(velocities)) - 1
         slant_stack = np.empty((len(velocities), ntaus))
         rows = np.tile(np.arange(nchannels).reshape(nchannels, 1), (1, ntaus))
         cols = np.tile(np.arange(ntaus).reshape(1, ntaus), (nchannels, 1))
-- 
2.43.0


From 39a4ac408c30350ae3902b28db5d2801ff542aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:04 +0000
Subject: [PATCH 17/38] fix: signal-to-noise frequencies use the true frequency
 step

---
 swprocess/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/snr.py b/swprocess/snr.py
index e0033ee..6cc4af9 100644
--- a/swprocess/snr.py
+++ b/swprocess/snr.py
@@ -42,7 +42,7 @@ class SignaltoNoiseRatio():
 
         # Frequency vector
         sensor = noise[0]
-        frqs = np.arange(sensor.nsamples) * sensor.df
+        frqs = np.arange(sensor.nsamples) * sensor._df
         Empty = WavefieldTransformRegistry.create_class("empty")
         keep_ids = Empty._frequency_keep_ids(frqs, fmin, fmax, sensor.multiple)
         frequencies = frqs[keep_ids]
-- 
2.43.0


From 6069b883f1d1399b6dc926185960f70fcf90e3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:04 +0000
Subject: [PATCH 18/38] fix: configured mute window options reach the mute

---
 swprocess/maswworkflows.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/swprocess/maswworkflows.py b/swprocess/maswworkflows.py
index 8b4adc3..7975842 100644
--- a/swprocess/maswworkflows.py
+++ b/swprocess/maswworkflows.py
@@ -84,9 +84,12 @@ class AbstractMaswWorkflow(ABC):
         """Mute record in the time domain."""
         mute = self.settings["pre-processing"]["mute"]
         if mute["apply"]:
+            # Without options, the default signal window is used.
+            window_kwargs = mute.get("window_kwargs") or None
             if self.signal_start is None and self.signal_end is None:
                 if mute["method"] == "interactive":
-                    self.signal_start, self.signal_end = self.array.interactive_mute()
+                    kwargs = {} if window_kwargs is None else dict(window_kwargs=window_kwargs)
+                    self.signal_start, self.signal_end = self.array.interactive_mute(**kwargs)
                 # TODO (jpv): Implement predefined times for muting.
                 else:
                     msg = f"mute type {mute['method']} is unknown, use 'interactive'."
@@ -94,7 +97,7 @@ class AbstractMaswWorkflow(ABC):
             else:
                 self.array.mute(signal_start=self.signal_start,
                                 signal_end=self.signal_end,
-                                window_kwargs=mute.get("window kwargs"),
+                                window_kwargs=window_kwargs,
                                 )
 
     def select_signal(self):
-- 
2.43.0


From 5482312d403d1eca0641df4a6936cbdc60f07990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:04 +0000
Subject: [PATCH 19/38] fix: frequency-domain workflow accepts a single file
 name

---
 swprocess/maswworkflows.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swprocess/maswworkflows.py b/swprocess/maswworkflows.py
index 7975842..71088d6 100644
--- a/swprocess/maswworkflows.py
+++ b/swprocess/maswworkflows.py
@@ -262,6 +262,9 @@ class FrequencyDomainMaswWorkflow(AbstractMaswWorkflow):
     """Stack in the frequency-domain."""
 
     def run(self):
+        if isinstance(self.fnames, str):
+            self.fnames = [self.fnames]
+
         example_array = Array1D.from_files(self.fnames[0],
                                            map_x=self.map_x,
                                            map_y=self.map_y)
-- 
2.43.0


From 7e03965c146bcedb1fdddfa6b102f3a654e07672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:43 +0000
Subject: [PATCH 20/38] fix: Peaks.from_dict no longer deletes "valid" from the
 caller's dictionary

---
 swprocess/peaks.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 6a8f845..5ee608d 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -599,11 +599,9 @@ class Peaks():
             Initialized `Peaks` instance.
 
         """
-        valid = data_dict.get("valid")
-        try:
-            del data_dict["valid"]
-        except KeyError:
-            pass
+        # Take valid from a copy, to leave the caller's data unmodified.
+        data_dict = dict(data_dict)
+        valid = data_dict.pop("valid", None)
 
         obj = cls(identifier=identifier, **data_dict)
 
-- 
2.43.0


From c95e970782dbba05974a54fc22dd05928f1e33fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:44 +0000
Subject: [PATCH 21/38] fix: Peaks with different numbers of valid peaks are
 never equal

---
 swprocess/peaks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 5ee608d..0f93f1e 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -668,6 +668,10 @@ class Peaks():
             except AttributeError:
                 return False
             else:
+                # allclose broadcasts, so check shape explicitly.
+                if myattr.shape != urattr.shape:
+                    return False
+
                 try:
                     if not np.allclose(myattr, urattr, equal_nan=True):
                         return False
-- 
2.43.0


From 9c262ca57da9ba2ff664c84849ff4de77dab488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:44 +0000
Subject: [PATCH 22/38] fix: dropping from an empty data matrix drops columns
 without values

---
 swprocess/peakssuite.py | 4 +++-
 swprocess/stats.py      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index 3967d70..15c95d3 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -716,7 +716,9 @@ class PeaksSuite():
     def _drop_indices(data_matrix, drop_if_fewer_percent, drop_if_fewer_count):
         """Iterate by row, return rejection indices."""
         if data_matrix.size == 0:
-            return np.array([], dtype=int)
+            # Empty rows have no values and are dropped if any are required.
+            required = drop_if_fewer_count > 0 or drop_if_fewer_percent > 0
+            return np.arange(len(data_matrix) if required else 0, dtype=int)
 
         drop_indices = []
         for index, row in enumerate(data_matrix):
diff --git a/swprocess/stats.py b/swprocess/stats.py
index 7c6e935..147e44d 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -196,7 +196,9 @@ class Statistics():
     def _drop_indices(data_matrix, drop_if_fewer_percent, drop_if_fewer_count):
         """Iterate by row, return rejection indices."""
         if data_matrix.size == 0:
-            return np.array([], dtype=int)
+            # Empty rows have no values and are dropped if any are required.
+            required = drop_if_fewer_count > 0 or drop_if_fewer_percent > 0
+            return np.arange(len(data_matrix) if required else 0, dtype=int)
 
         drop_indices = []
         for index, row in enumerate(data_matrix):
-- 
2.43.0


From f9fbb3f503bcdeab410e9a2322586b916fb4874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:10 +0000
Subject: [PATCH 23/38] fix: times and frequencies of .max files are matched
 exactly

---
 swprocess/peaks.py | 7 +++++--
 swprocess/regex.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 0f93f1e..1b7c219 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -16,6 +16,7 @@
 
 """Peaks class definition."""
 
+import re
 import json
 import warnings
 import logging
@@ -164,7 +165,8 @@ class Peaks():
             start_time, *_ = regex.search(peak_data).groups()
 
         if frequencies is None:
-            regex = get_peak_from_max(time=start_time, wavetype=wavetype)
+            regex = get_peak_from_max(time=re.escape(start_time),
+                                      wavetype=wavetype)
             frequencies = []
             for match in regex.finditer(peak_data):
                 _, f, *_ = match.groups()
@@ -188,7 +190,8 @@ class Peaks():
         pwrs = np.full_like(frqs, fill_value=np.nan, dtype=float)
 
         for col, frequency in enumerate(frequencies):
-            getpeak = get_peak_from_max(time=start_time, frequency=frequency,
+            getpeak = get_peak_from_max(time=re.escape(start_time),
+                                        frequency=re.escape(frequency),
                                         wavetype=wavetype)
 
             for row, match in enumerate(getpeak.finditer(peak_data)):
diff --git a/swprocess/regex.py b/swprocess/regex.py
index a76b9cb..ad6e561 100644
--- a/swprocess/regex.py
+++ b/swprocess/regex.py
@@ -44,7 +44,7 @@ def get_peak_from_max(time=DEFAULT_TIME, frequency=DEFAULT_FREQUENCY, wavetype="
     """
     # abs_time frequency polarization slowness azimuth ellipticity noise power valid
     wavetype = validate_wavetypes(wavetype)
-    pattern = f"({time}) ({frequency}) {wavetype} ({NUMBER}) ({NUMBER}) ({NUMBER}) ({NUMBER}|-?inf|nan) ({NUMBER}) 1"
+    pattern = f"(?<!\\S)({time}) ({frequency}) {wavetype} ({NUMBER}) ({NUMBER}) ({NUMBER}) ({NUMBER}|-?inf|nan) ({NUMBER}) 1(?!\\S)"
     return re.compile(pattern)
 
 def get_geopsy_version():
-- 
2.43.0


From 5b2d7386033945658a91b5ec8bb0b05cf64713d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:10 +0000
Subject: [PATCH 24/38] fix: rejected lines are not counted when reading .max
 files

---
 swprocess/peaks.py | 2 +-
 swprocess/regex.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 1b7c219..4d58e5f 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -205,7 +205,7 @@ class Peaks():
                 pwrs[row, col] = float(_pwr)
 
         # Include for "belt and suspenders".
-        getall = get_all(time=start_time, wavetype=wavetype)
+        getall = get_all(time=re.escape(start_time), wavetype=wavetype)
         count = len(getall.findall(peak_data))
         if np.sum(~np.isnan(frqs)) != count:  # pragma: no cover
             msg = f"Missing {count - len(frqs)} dispersion peaks."
diff --git a/swprocess/regex.py b/swprocess/regex.py
index ad6e561..e0a4f8a 100644
--- a/swprocess/regex.py
+++ b/swprocess/regex.py
@@ -79,11 +79,11 @@ def get_all(wavetype=r"rayleigh", time=r"(\d+\.?\d*)"):
 
     """
     if wavetype is None:
-        pattern = f"{time} .* 1"
+        pattern = f"(?<!\\S){time} .* 1\\s*$"
     else:
         wavetype = validate_wavetypes(wavetype)
-        pattern = f"{time} .* {wavetype} .* 1"
-    return re.compile(pattern)
+        pattern = f"(?<!\\S){time} .* {wavetype} .* 1\\s*$"
+    return re.compile(pattern, re.MULTILINE)
 
 def validate_wavetypes(wavetype):
     if wavetype in ("rayleigh", "love", "vertical", "radial", "transverse"):
-- 
2.43.0


From f0d242d61d94cdc68899e3c8b227725fb22621d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:11 +0000
Subject: [PATCH 25/38] fix: PeaksSuite.from_max reads each file with the
 requested wavetype

---
 swprocess/peakssuite.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index 15c95d3..ba85885 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -845,14 +845,16 @@ class PeaksSuite():
             regex = get_wavetype()
             wavetype_from_file = regex.search(peak_data).groups()[0]
             if wavetype == "rayleigh" and wavetype_from_file == "Vertical":
-                wavetype = "vertical"
+                _wavetype = "vertical"
+            else:
+                _wavetype = wavetype
 
             regex = get_nmaxima()
             nmaxima = int(regex.search(peak_data).groups()[0])
             nmaxima = max(1, nmaxima)
             nmaxima = min(100, nmaxima)
 
-            regex = get_peak_from_max(wavetype=wavetype)
+            regex = get_peak_from_max(wavetype=_wavetype)
             frequencies = []
             for match in regex.finditer(peak_data):
                 _, f, *_ = match.groups()
@@ -861,7 +863,7 @@ class PeaksSuite():
                 else:
                     frequencies.append(f)
 
-            regex = get_peak_from_max(wavetype=wavetype)
+            regex = get_peak_from_max(wavetype=_wavetype)
             found_times = []
             for found in regex.finditer(peak_data):
                 start_time = found.groups()[0]
@@ -869,7 +871,7 @@ class PeaksSuite():
                     continue
                 found_times.append(start_time)
                 peak = Peaks._parse_peaks(peak_data,
-                                          wavetype=wavetype,
+                                          wavetype=_wavetype,
                                           start_time=start_time,
                                           frequencies=frequencies,
                                           nmaxima=nmaxima)
-- 
2.43.0


From 6ad85077f59f36a9e62ac04706310a7d820dd832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:11 +0000
Subject: [PATCH 26/38] fix: the wavetype of a .max file is found among its
 peaks only

---
 swprocess/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/regex.py b/swprocess/regex.py
index e0a4f8a..a98637f 100644
--- a/swprocess/regex.py
+++ b/swprocess/regex.py
@@ -52,7 +52,7 @@ def get_geopsy_version():
 
 def get_wavetype():
     space = r"(\S+)"
-    pattern = f"{DEFAULT_TIME} {DEFAULT_FREQUENCY} {space} {NUMBER} {NUMBER} {NUMBER} {NUMBER}|-?inf|nan {NUMBER} 1"
+    pattern = f"{DEFAULT_TIME} {DEFAULT_FREQUENCY} {space} {NUMBER} {NUMBER} {NUMBER} (?:{NUMBER}|-?inf|nan) {NUMBER} 1"
     return re.compile(pattern)
 
 def get_process_type():
-- 
2.43.0


From 0d8bae2b12e547fc22564fe83edde755d1c6375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:55 +0000
Subject: [PATCH 27/38] fix: region search stops after the last column

---
 swprocess/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/stats.py b/swprocess/stats.py
index 147e44d..d860194 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -292,7 +292,7 @@ class Statistics():
             else:  # pragma: no cover
                 raise ValueError("Iteration stopped without breaking.")
 
-            if c_row+1 == nrows and c_col+1 == ncols:
+            if c_col+1 == ncols:
                 break
             else:
                 s_col = int(c_col)+1
-- 
2.43.0


From 3047c62f79a6e4fa5cfc7e7c99603e097676aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:55 +0000
Subject: [PATCH 28/38] fix: Statistics can be constructed

---
 swprocess/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/stats.py b/swprocess/stats.py
index d860194..17a55cf 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -30,7 +30,7 @@ class Statistics():
         self.xx = np.array(xx, dtype=float)
         self.mean = np.array(mean, dtype=float)
         self.stddev = np.array(stddev, dtype=float)
-        self.corr = np.array(corr, dytpe=float)
+        self.corr = np.array(corr, dtype=float)
 
     @classmethod
     def from_peakssuite(cls, peakssuite, xx, xtype="wavelength",
-- 
2.43.0


From 03b1063471e02c85803d5396dbffda6902ffc322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:46 +0000
Subject: [PATCH 29/38] fix: plot peaks on logarithmic axes when there are no
 points to show

---
 swprocess/peaks.py      | 6 +++---
 swprocess/peakssuite.py | 7 ++-----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 4d58e5f..74d702f 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -251,12 +251,12 @@ class Peaks():
 
         # Loop across Axes(s).
         for _ax, _xtype, _ytype in zip(ax, xtype, ytype):
+            # Configure Axes (before plotting, as there may be no points).
+            self._configure_axes(ax=_ax, xtype=_xtype, ytype=_ytype,
+                                 defaults=self.axes_defaults)
             # Plot Peaks.
             self._plot(ax=_ax, xtype=_xtype, ytype=_ytype,
                        plot_kwargs=plot_kwargs, mask=mask)
-            # Configure Axes
-            self._configure_axes(ax=_ax, xtype=_xtype, ytype=_ytype,
-                                 defaults=self.axes_defaults)
 
         # Return fig, ax.
         fig.tight_layout()
diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index ba85885..5b14187 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -282,6 +282,8 @@ class PeaksSuite():
                 raise IndexError(msg)
 
             for _ax, _xtype, _ytype in zip(ax, xtype, ytype):
+                Peaks._configure_axes(ax=_ax, xtype=_xtype, ytype=_ytype,
+                                      defaults=Peaks.axes_defaults)
                 self.peaks[0]._plot(ax=_ax, xtype=_xtype, ytype=_ytype,
                                     plot_kwargs=plot_kwargs[0],
                                     mask=mask[0])
@@ -300,11 +302,6 @@ class PeaksSuite():
                     _peak._plot(xtype=_xtype, ytype=_ytype, ax=_ax,
                                 plot_kwargs=_plot_kwargs, mask=_mask)
 
-        # Configure Axes.
-        for _ax, _xtype, _ytype in zip(ax, xtype, ytype):
-            Peaks._configure_axes(ax=_ax, xtype=_xtype, ytype=_ytype,
-                                  defaults=Peaks.axes_defaults)
-
         # Return (fig, ax) if generated on-the-fly.
         if ax_was_none:
             return (fig, ax)
-- 
2.43.0


From ffbebcddd72c1f411a1e6ac4ebcd5d92180f643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:45 +0000
Subject: [PATCH 30/38] fix: a frequency without power no longer spoils
 normalized dispersion images

---
 swprocess/wavefieldtransforms.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index c8e90fe..62e1096 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -100,12 +100,17 @@ class AbstractWavefieldTransform(ABC):
         self.power *= self._to_abs
 
         # Normalize power
+        def maximum(x, axis=None):
+            # Where there is no power there is nothing to normalize.
+            xmax = np.max(np.abs(x), axis=axis)
+            return np.where(xmax == 0, 1., xmax)
+
         register = {"none": (np.abs,
                              lambda x: 1.),
-                    "absolute-maximum": (lambda x: np.abs(x)/np.max(np.abs(x)),
-                                         lambda x: np.max(np.abs(x))),
-                    "frequency-maximum": (lambda x: np.abs(x)/np.max(np.abs(x), axis=0),
-                                          lambda x: np.max(np.abs(x), axis=0))
+                    "absolute-maximum": (lambda x: np.abs(x)/maximum(x),
+                                         lambda x: maximum(x)),
+                    "frequency-maximum": (lambda x: np.abs(x)/maximum(x, axis=0),
+                                          lambda x: maximum(x, axis=0))
                     }
         to_norm, to_abs = register[by]
         self.power, self._to_abs = (to_norm(self.power), to_abs(self.power))
-- 
2.43.0


From 674450a8870b30ef8345728c72e91a7ab0feaed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:04 +0000
Subject: [PATCH 31/38] fix: an unknown normalization no longer alters the
 dispersion image

---
 swprocess/wavefieldtransforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 62e1096..d9746dc 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -96,9 +96,6 @@ class AbstractWavefieldTransform(ABC):
             Update the internal state of power.
 
         """
-        # Return power to unnormalized state.
-        self.power *= self._to_abs
-
         # Normalize power
         def maximum(x, axis=None):
             # Where there is no power there is nothing to normalize.
@@ -113,6 +110,9 @@ class AbstractWavefieldTransform(ABC):
                                           lambda x: maximum(x, axis=0))
                     }
         to_norm, to_abs = register[by]
+
+        # Return power to unnormalized state.
+        self.power *= self._to_abs
         self.power, self._to_abs = (to_norm(self.power), to_abs(self.power))
 
     def find_peak_power(self, by="frequency-maximum", **kwargs):
-- 
2.43.0


From 032c372d1cc6b155b20fe1c7963e22c4ff317f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:11 +0000
Subject: [PATCH 32/38] fix: a record moved by more than its own length keeps
 its length

---
 swprocess/activetimeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index 12b5e69..99959cb 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -348,7 +348,7 @@ class ActiveTimeSeries(TimeSeries):
         maxcorr_location = np.argmax(corr)
         shifts = (maxcorr_location+1)-b.nsamples
         if shifts > 0:
-            return (shifts, np.concatenate((np.zeros(shifts), b.amplitude[:-shifts])))
+            return (shifts, np.concatenate((np.zeros(min(shifts, b.nsamples)), b.amplitude[:-shifts])))
         elif shifts < 0:
             return (shifts, np.concatenate((b.amplitude[abs(shifts):], np.zeros(abs(shifts)))))
         else:
-- 
2.43.0


From 9f197bbe5c4140b44ec6e907b750f9ccf7a722c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:32 +0000
Subject: [PATCH 33/38] fix: mute lines may leave the record at some of the
 sensors

---
 swprocess/array1d.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 9f8ad0a..e028d0f 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -589,8 +589,11 @@ class Array1D():
         # Perform windowing.
         window = np.zeros(nsamples)
         for i, (start, stop) in enumerate(zip(start_indices, stop_indices)):
-            window[start:stop] = signal.windows.tukey(stop-start,
-                                                      **window_kwargs)
+            taper = signal.windows.tukey(stop-start, **window_kwargs)
+            # Lines may leave the record before the array's ends.
+            first = max(start, 0)
+            last = max(min(stop, nsamples), first)
+            window[first:last] = taper[first-start:last-start]
             self.sensors[i]._amp *= window
             window *= 0
 
-- 
2.43.0


From e3b41922e8a034fcc22998a584d7b6493129e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:03 +0000
Subject: [PATCH 34/38] fix: compare any attribute of a peak set, not only the
 named ones

---
 swprocess/peaks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 74d702f..d59ad1d 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -666,8 +666,8 @@ class Peaks():
         # Check iterable attributes
         for attr in self.attrs:
             try:
-                myattr = getattr(self, attr)
-                urattr = getattr(other, attr)
+                myattr = getattr(self, f"_{attr}")[self._valid]
+                urattr = getattr(other, f"_{attr}")[other._valid]
             except AttributeError:
                 return False
             else:
-- 
2.43.0


From f59beaf956f4e515953b76714ee4bee3746077f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:03 +0000
Subject: [PATCH 35/38] fix: simplify any attribute of a one-row peak set

---
 swprocess/peaks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index d59ad1d..c891737 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -485,7 +485,7 @@ class Peaks():
         """
         # If 1D, return valid.
         if getattr(self, f"_{attr}").ndim == 1:
-            return getattr(self, f"{attr}")
+            return getattr(self, f"_{attr}")[self._valid]
 
         # If 2D and has power, return values based on maximum.
         elif hasattr(self, "_power"):
-- 
2.43.0


From d7d0881b3f9e44b2c79189a62d6e4b9a8e3523f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:15 +0000
Subject: [PATCH 36/38] fix: a name in one axes' legend does not keep it out of
 the next

---
 swprocess/peakssuite.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index 5b14187..e240834 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -294,13 +294,14 @@ class PeaksSuite():
                 label = _plot_kwargs.get("label", None)
                 for _ax, _xtype, _ytype in zip(ax, xtype, ytype):
 
-                    # Only label unique data sets.
+                    # Only label unique data sets (of each Axes).
                     _, labels = _ax.get_legend_handles_labels()
+                    _ax_kwargs = _plot_kwargs
                     if label in labels:
-                        _plot_kwargs["label"] = None
+                        _ax_kwargs = {**_plot_kwargs, "label": None}
 
                     _peak._plot(xtype=_xtype, ytype=_ytype, ax=_ax,
-                                plot_kwargs=_plot_kwargs, mask=_mask)
+                                plot_kwargs=_ax_kwargs, mask=_mask)
 
         # Return (fig, ax) if generated on-the-fly.
         if ax_was_none:
-- 
2.43.0


From a84edd9a6e6509c1a039effb2f9a3a81c73172b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:48 +0000
Subject: [PATCH 37/38] fix: images on other frequencies or velocities are not
 stacked

---
 swprocess/wavefieldtransforms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index d9746dc..0c909a9 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -362,6 +362,11 @@ class EmptyWavefieldTransform(AbstractWavefieldTransform):
 
     def stack(self, other):
         try:
+            for name in ("frequencies", "velocities"):
+                mine, theirs = getattr(self, name), getattr(other, name)
+                if np.shape(mine) != np.shape(theirs) or not np.allclose(mine, theirs):
+                    msg = f"Can only stack transforms with equal {name}."
+                    raise ValueError(msg)
             self.power = (self.power*self.n + other.power*other.n)
             self.power /= (self.n+other.n)
         except AttributeError as e:
-- 
2.43.0


From fce435a0eb28bdbef140f695fd1059aa7be9a148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:40 +0000
Subject: [PATCH 38/38] fix: a format given by the caller suffices to read a
 trace's header

---
 swprocess/sensor1c.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index d57dc54..e6e994d 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -169,6 +169,7 @@ class Sensor1C(ActiveTimeSeries):
 
         return cls.from_trace(trace,
                               read_header=False,
+                              format="SEG2",
                               nstacks=cls._safely_get_header(header, "STACK", 1, int),
                               delay=cls._safely_get_header(header, "DELAY", 0., float),
                               x=map_x(cls._safely_get_header(header, "RECEIVER_LOCATION", 0., float)),
@@ -219,6 +220,7 @@ class Sensor1C(ActiveTimeSeries):
 
         return cls.from_trace(trace,
                               read_header=False,
+                              format="SU",
                               nstacks=nstacks,
                               delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,
                               x=map_x(x),
@@ -269,6 +271,7 @@ class Sensor1C(ActiveTimeSeries):
 
         return cls.from_trace(trace,
                               read_header=False,
+                              format="SEGY",
                               nstacks=nstacks,
                               delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,
                               x=map_x(x),
-- 
2.43.0

