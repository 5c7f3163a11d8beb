From a681e06ad6f46bd40947a48b489da424cf04bebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 01/48] fix: honour the custom solid angle of an optical
 element

OpticalPath.chain never copied it to the radiance, so compute_signal always
used the default solid angle.
---
 exorad/models/optics/opticalPath.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index 5dd2f76..4734f0f 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -259,6 +259,7 @@ class OpticalPath(Logger):
             self.debug(f"Propagating {el.name}")
             out_radiance = InstRadiance(wl_grid=wl, data=np.zeros(wl.size))
             out_radiance.position = el.position
+            out_radiance.angle = el.angle
             if el.temperature is not None:
                 # Calculate the surface radiance
                 out_radiance.data = surface_radiance(
-- 
2.43.0


From 93dbd570220161a386ec219e0f8b26ed0b154da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 02/48] fix: filter each foreground by the foregrounds in front
 of it

The attribute was looked up on the foreground name, so no foreground was ever
attenuated by the layers closer to the telescope.
---
 exorad/models/instruments/instrument.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 1ca745d..dba6ae6 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -191,13 +191,12 @@ class Instrument(Logger):
             radiance = copy.deepcopy(target.foreground[frg])
             self.debug("{} radiance . {}".format(frg, radiance.data))
 
-            if hasattr(frg, "transmission"):
-                frg.transmission.spectral_rebin(transmission.wl_grid)
-                transmission.data *= frg.transmission.data
-                self.debug("added {} transmission".format(frg))
-
             transmission.spectral_rebin(radiance.wl_grid)
             radiance.data *= transmission.data
+            if hasattr(radiance, "transmission"):
+                # filters only the foregrounds farther from the telescope
+                transmission.data *= radiance.transmission
+                self.debug("added {} transmission".format(frg))
 
             # for other_el in foregrounds[i+1:]:
             #     if hasattr(target.foreground[other_el], 'transmission'):
-- 
2.43.0


From 9543b33ae178f1b37a4ca8f3876e0afb6433ebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 03/48] fix: do not store a target's sky transmission in the
 channel table

It leaked into the tables of the targets observed afterwards.
---
 exorad/models/instruments/instrument.py   | 7 ++++---
 exorad/models/instruments/photometer.py   | 4 ++--
 exorad/models/instruments/spectrometer.py | 4 ++--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index dba6ae6..7f00ccc 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -361,15 +361,16 @@ class Instrument(Logger):
 
         if hasattr(target, "skyTransmission"):
             target_transmission = copy.deepcopy(target.skyTransmission)
-            self.table["sky TR"], _ = self._get_transmission(
-                target_transmission.wl_grid, target_transmission.data
-            )
             target_transmission.spectral_rebin(wl)
             transmission.data *= target_transmission.data
 
         wave_window = np.ones(wl.size)
         return qe.data, transmission.data, wave_window
 
+    def _get_sky_transmission(self, target):
+        sky = copy.deepcopy(target.skyTransmission)
+        return self._get_transmission(sky.wl_grid, sky.data)[0]
+
     def _add_data_to_built(self, name, data):
         self.built_instr[name] = data
 
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 4bdc5f2..48e58c6 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -135,8 +135,8 @@ class Photometer(Instrument):
         out = QTable()
         wl = target.star.sed.wl_grid
         qe, transmission, wave_window = self._get_efficiency(wl, target)
-        if "sky TR" in self.table.keys():
-            out["foreground_transmission"] = self.table["sky TR"]
+        if hasattr(target, "skyTransmission"):
+            out["foreground_transmission"] = self._get_sky_transmission(target)
 
         if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
             self.debug("force channel wl edge enabled")
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index f57e861..b8b24d5 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -327,8 +327,8 @@ class Spectrometer(Instrument):
         out = QTable()
         wl = target.star.sed.wl_grid
         qe, transmission, wave_window = self._get_efficiency(wl, target)
-        if "sky TR" in self.table.keys():
-            out["foreground_transmission"] = self.table["sky TR"]
+        if hasattr(target, "skyTransmission"):
+            out["foreground_transmission"] = self._get_sky_transmission(target)
         if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
-- 
2.43.0


From 8392a0539eb01791a652f6bd941bc5958e0f4a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 04/48] fix: vstack_tables no longer modifies or returns its
 input tables

The channels' own tables got zero columns, and with one channel the target
table was the channel table itself, so target metadata ended up in it.
---
 exorad/utils/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exorad/utils/util.py b/exorad/utils/util.py
index d6ff10b..6fc3b5f 100644
--- a/exorad/utils/util.py
+++ b/exorad/utils/util.py
@@ -79,6 +79,7 @@ def to_dict(obj, classkey=None):
 def vstack_tables(table_list):
     table = False
     for tab in table_list:
+        tab = tab.copy()
         if not table:
             table = tab
         else:
-- 
2.43.0


From 95ed7d22f6c523232a905c7e115b67854b45b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 05/48] fix: leave skipped targets out of the observed targets

They were stored as {None: None}, and writing the output file crashed.
---
 exorad/tasks/targetHandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index b1000ff..004055d 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -389,14 +389,16 @@ class ObserveTargetlist(Task):
                     repeat(out_dir),
                     repeat(debug),
                 ):
-                    outputDict[t_name] = output
+                    if t_name is not None:
+                        outputDict[t_name] = output
         else:
             outputDict = {}
             for target in targets:
                 t_name, output = pipeline_to_dict(
                     target, payload, channels, wl_range, plot, out_dir, debug
                 )
-                outputDict[t_name] = output
+                if t_name is not None:
+                    outputDict[t_name] = output
 
         self.set_output(outputDict)
 
-- 
2.43.0


From 01ffb5746e6fb40157087f279aeaad46942ca460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 06/48] fix: observe targets when the payload lists no
 foreground

The foreground propagation failed and every target was skipped.
---
 exorad/tasks/targetHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 004055d..2cfb75e 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -250,7 +250,7 @@ class ObserveTarget(Task):
                 target=target,
                 wl_range=(wl_min, wl_max),
             )
-        target = propagateForegroundLight(channels=channels, target=target)
+            target = propagateForegroundLight(channels=channels, target=target)
 
         target, sed = loadSource(
             target=target,
-- 
2.43.0


From 51c2856eae9300a1f9c684e86b9fdba4cd498f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 07/48] fix: a plot that cannot be saved does not discard the
 observed target

---
 exorad/tasks/targetHandler.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 2cfb75e..c3cf26d 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -291,8 +291,17 @@ def pipeline_to_dict(
         )
         enableLogging()
         outputDict = deepcopy(target)
+    except:
+        enableLogging()
+        root_logger.warning(
+            "target {} skipped. Please check for previous error messages".format(
+                target.name
+            )
+        )
+        return None, None
 
-        if plot:
+    if plot:
+        try:
             import matplotlib.pyplot as plt
             import matplotlib
             from exorad.utils.plotter import Plotter
@@ -304,15 +313,9 @@ def pipeline_to_dict(
                 os.path.join(out_dir, "{}.png".format(target.name))
             )
             plt.close()
-        return target.name, outputDict
-    except:
-        enableLogging()
-        root_logger.warning(
-            "target {} skipped. Please check for previous error messages".format(
-                target.name
-            )
-        )
-        return None, None
+        except Exception:
+            root_logger.warning("{} not plotted".format(target.name))
+    return target.name, outputDict
 
 
 class ObserveTargetlist(Task):
-- 
2.43.0


From acb244223edb18c8242d819b0a60972f39067295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 08/48] fix: enableLogging restores the level in use before
 disableLogging

It forced INFO, dropping e.g. the DEBUG level selected for a pipeline run
after the first target.
---
 exorad/log/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exorad/log/__init__.py b/exorad/log/__init__.py
index a378fa5..7d25bdd 100644
--- a/exorad/log/__init__.py
+++ b/exorad/log/__init__.py
@@ -66,7 +66,9 @@ def disableLogging():
     # import logging
     # from .logger import root_logger
     # root_logger.setLevel(logging.ERROR)
-    setLogLevel(logging.ERROR)
+    from .logger import root_logger
+
+    root_logger.handlers[0].setLevel(logging.ERROR)
 
 
 def enableLogging():
@@ -77,7 +79,7 @@ def enableLogging():
     #
     # # if last_log is None:
     # #     last_log = logging.INFO
-    setLogLevel(logging.INFO)
+    setLogLevel(last_log)
 
 
 def addLogFile(fname="exorad.log"):
-- 
2.43.0


From 9e82b5bd41a0ee346fcdb713be6bee52ecad9038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 09/48] fix: use the fallback zodiacal model when the map fit
 fails

Its result was dropped and an UnboundLocalError raised.
---
 exorad/models/foregrounds/zodiacalForeground.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/foregrounds/zodiacalForeground.py b/exorad/models/foregrounds/zodiacalForeground.py
index 0bacb83..8db5daa 100644
--- a/exorad/models/foregrounds/zodiacalForeground.py
+++ b/exorad/models/foregrounds/zodiacalForeground.py
@@ -51,7 +51,7 @@ class ZodiacalFrg(Logger):
                 A = self.zodiacal_fit_direction(coordinates, map_file)
             except (KeyError, OSError):
                 self.warning("zodiacal fit failed")
-                self._get_radiance(coordinates=None)
+                return self._get_radiance(coordinates=None)
 
         elif "zodiacFactor" in self.description:
             self.debug(" model used for zodiacal foreground")
-- 
2.43.0


From 016eac8c16824ad184f30cbc3b522800f468c3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 10/48] fix: get_wl_col_name handles wl_col_name and missing
 columns

A given wl_col_name hit an unbound variable, and a missing wavelength column
was returned as None.
---
 exorad/models/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/utils.py b/exorad/models/utils.py
index 74cbd15..5594e02 100644
--- a/exorad/models/utils.py
+++ b/exorad/models/utils.py
@@ -6,6 +6,6 @@ def get_wl_col_name(data, description=None):
         for wl_key in ["Wavelength", "wavelength"]:
             if wl_key in data.keys():
                 wl_colname = wl_key
-    if wl_key is None:
+    if wl_colname is None:
         raise KeyError("Wavelength column not found in transmission data file")
     return wl_colname
-- 
2.43.0


From 763e5420d04d6a83a522ceaa4f9d967e5dcdb2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 11/48] fix: observing a target again does not apply its sky
 transmission twice

---
 exorad/tasks/foregroundHandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exorad/tasks/foregroundHandler.py b/exorad/tasks/foregroundHandler.py
index 49a12d1..487563c 100644
--- a/exorad/tasks/foregroundHandler.py
+++ b/exorad/tasks/foregroundHandler.py
@@ -155,6 +155,10 @@ class EstimateForegrounds(Task):
         estimateZodi = EstimateZodi()
         estimateForeground = EstimateForeground()
 
+        # sky transmission is accumulated over the foregrounds: start anew
+        if hasattr(target, "skyTransmission"):
+            del target.skyTransmission
+
         if isinstance(foregrounds, OrderedDict):
             for foreground in foregrounds:
                 if foreground == "zodiacal":
-- 
2.43.0


From aea3a236dd1a8470b3adc9971bfba8dd338df689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 12/48] fix: numbers with a decimal comma are parsed in MRS
 target lists

---
 exorad/models/targetlist.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 666c2ca..1d3f81b 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -277,9 +277,9 @@ class CSVTargetListMRS(BaseTargetList):
                     ):  # for some reason, comma are used instead of dots sometimes
                         val[n] = val[n].replace(",", ".")
                     try:
-                        float(val[n])
+                        val[n] = float(val[n])
                     except ValueError:
-                        val[n]
+                        pass
                 if units[n] is not None:
                     val[n] = val[n] * units[n]
             dat.append([str(x) if isinstance(x, np.str_) else x for x in val])
@@ -326,9 +326,9 @@ class CSVTargetListMRS(BaseTargetList):
                     ):  # for some reason, comma are used instead of dots sometimes
                         val[n] = val[n].replace(",", ".")
                     try:
-                        float(val[n])
+                        val[n] = float(val[n])
                     except ValueError:
-                        val[n]
+                        pass
                 if units[n] is not None:
                     val[n] = val[n] * units[n]
             dat.append([str(x) if isinstance(x, np.str_) else x for x in val])
-- 
2.43.0


From b0b34c5ab701c83a19cff55bfe1fa53000005af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 13/48] fix: an incomplete custom noise is reported instead of
 silently dropped

---
 exorad/tasks/noiseHandler.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/exorad/tasks/noiseHandler.py b/exorad/tasks/noiseHandler.py
index 8b7e220..1c631d6 100644
--- a/exorad/tasks/noiseHandler.py
+++ b/exorad/tasks/noiseHandler.py
@@ -91,16 +91,15 @@ class EstimateNoiseInChannel(Task):
         )
 
         wl = target.table["Wavelength"][target.table["chName"] == name]
-        if payload:
-            try:
-                out = noise.add_custom_noise(
-                    payload["common"]["customNoise"], wl, out
-                )
-            except KeyError:
-                self.debug("no custom noise found in common section")
-        try:
+        if payload and "customNoise" in payload.get("common", {}):
+            out = noise.add_custom_noise(
+                payload["common"]["customNoise"], wl, out
+            )
+        else:
+            self.debug("no custom noise found in common section")
+        if "customNoise" in channel:
             out = noise.add_custom_noise(channel["customNoise"], wl, out)
-        except KeyError:
+        else:
             self.debug("no custom noise found in channel section")
 
         self.debug("total noise : {}".format(out["total_noise"]))
-- 
2.43.0


From 082f09f31975b3506eadf130dbeed60125d49277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 14/48] fix: HDF5 data dictionaries are opened before being
 loaded

---
 exorad/tasks/loadOptions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 36d71a8..5e61c0b 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -209,7 +209,10 @@ class LoadOptions(Task):
         if ext in [".h5", ".hdf5"]:
             from exorad.output.hdf5 import load
 
-            data = load(datadict)
+            import h5py
+
+            with h5py.File(datadict, "r") as f:
+                data = load(f)
             return data
         elif ext == ".pickle":
             import pickle
-- 
2.43.0


From bf10e165badbaa577d2b8a5e78729e4dc4c13b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 15/48] fix: ConfigPath does not leak from a previously loaded
 payload

---
 exorad/tasks/loadOptions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 5e61c0b..c13f8d8 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -46,6 +46,7 @@ class LoadOptions(Task):
     def execute(self):
         self._filename = self.get_task_param("filename")
         self._config_path = self.get_task_param("config_path")
+        self.configPath = self._config_path
         self.__check_format__()
         root = self.__get_root__()
         self._dict = self.__parser__(root)
-- 
2.43.0


From 15751c44a2391641ad8d6270a3c88d44d78a0561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 16/48] fix: pixel bandwidth has the units of the wavelength
 solution

---
 exorad/models/instruments/spectrometer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index b8b24d5..a2192d4 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -177,7 +177,7 @@ class Spectrometer(Instrument):
                 wl_sol_func(coord_pix_center - 0.5 * delta)
                 - wl_sol_func(coord_pix_center + 0.5 * delta)
             )
-            * delta.unit
+            * wl_solution_data.wl_grid.unit
         )
         self._add_data_to_built("pixel_bandwidth", pixel_bandwidth)
 
-- 
2.43.0


From 4087d4ed7df06158111d8ff2a2026ce2547d83f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 17/48] fix: channel edges are converted to the units of the
 wavelength solution

---
 exorad/models/instruments/spectrometer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index a2192d4..27b677e 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -140,11 +140,19 @@ class Spectrometer(Instrument):
         )
 
         first_pixel = (
-            wl_sol_func_reverse(self.description["wl_min"]["value"])
+            wl_sol_func_reverse(
+                self.description["wl_min"]["value"].to(
+                    wl_solution_data.wl_grid.unit
+                )
+            )
             * wl_solution_data.data.unit
         )
         last_pixel = (
-            wl_sol_func_reverse(self.description["wl_max"]["value"])
+            wl_sol_func_reverse(
+                self.description["wl_max"]["value"].to(
+                    wl_solution_data.wl_grid.unit
+                )
+            )
             * wl_solution_data.data.unit
         )
         self.debug(
-- 
2.43.0


From 991d39cac86fae2d8c98da7829dcf4ea8e15a81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 18/48] fix: detector limits are converted to micron for the
 optical path grid

---
 exorad/models/instruments/instrument.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 7f00ccc..2ff72ae 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -108,10 +108,14 @@ class Instrument(Logger):
         wl_grid = (
             np.logspace(
                 np.log10(
-                    self.description["detector"]["wl_min"]["value"].value
+                    self.description["detector"]["wl_min"]["value"]
+                    .to(u.um)
+                    .value
                 ),
                 np.log10(
-                    self.description["detector"]["cut_off"]["value"].value
+                    self.description["detector"]["cut_off"]["value"]
+                    .to(u.um)
+                    .value
                 ),
                 PassVal.working_R,
             )
-- 
2.43.0


From 7d499e424dde113f6796814fa07a473b17193ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 19/48] fix: wavelength range is converted to micron for the
 source grid

---
 exorad/tasks/loadSource.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exorad/tasks/loadSource.py b/exorad/tasks/loadSource.py
index 0e6d14a..98a86af 100644
--- a/exorad/tasks/loadSource.py
+++ b/exorad/tasks/loadSource.py
@@ -64,11 +64,11 @@ class LoadSource(Task):
 
         wl_grid = (
             np.logspace(
-                np.log10(wl_min.value),
-                np.log10(wl_max.value),
+                np.log10(wl_min.to(u.um).value),
+                np.log10(wl_max.to(u.um).value),
                 PassVal.working_R,
             )
-            * wl_max.unit
+            * u.um
         )
 
         if source["value"].lower() == "custom":
-- 
2.43.0


From 68d977cebfcf77f531401b0aa1b649df73815ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 20/48] fix: the choice of the stellar model does not depend on
 the directory order

---
 exorad/models/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/source.py b/exorad/models/source.py
index f8b2427..a2cb6dc 100755
--- a/exorad/models/source.py
+++ b/exorad/models/source.py
@@ -99,7 +99,7 @@ class Star(Logger):
             "*.BT-Settl.spec.fits.gz"
         ]  # , "*.7.bz2", "*.7.gz", "*HiRes.fits"]
         for format in format_list:
-            sed_name = glob.glob(os.path.join(path, format))
+            sed_name = sorted(glob.glob(os.path.join(path, format)))
             if len(sed_name) != 0:
                 return sed_name
 
-- 
2.43.0


From 7e6ef01ca45a9e358802601ea229987edc90344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 21/48] fix: spectral bin edges are converted to micron

---
 exorad/models/instruments/spectrometer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 27b677e..83c6ef2 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -71,19 +71,19 @@ class Spectrometer(Instrument):
                 self.description["targetR"]["data"]["value"], sep="\t"
             )
             get_res = interp1d(res_data["W"], res_data["R"])
-            w1 = self.description["wl_min"]["value"].value
+            w1 = self.description["wl_min"]["value"].to(u.micron).value
             w2 = w1
             wl_bin = np.array([w1])
-            while w2 < self.description["wl_max"]["value"].value:
+            while w2 < self.description["wl_max"]["value"].to(u.micron).value:
                 w1 = w2
                 res = get_res(w1)
                 w2 = np.round((w1 + w1 / res), 4)
                 wl_bin = np.append(wl_bin, w2)
             if (
-                self.description["wl_max"]["value"].value - wl_bin[-2]
+                self.description["wl_max"]["value"].to(u.micron).value - wl_bin[-2]
                 < (wl_bin[-2] - wl_bin[-3]) / 2.0
             ):  # remove small bin at end of channel
-                wl_bin[-2] = self.description["wl_max"]["value"].value
+                wl_bin[-2] = self.description["wl_max"]["value"].to(u.micron).value
                 wl_bin = wl_bin[:-1]
             wl_bin_c = (
                 (np.array(wl_bin[:-1]) + np.array(wl_bin[1:])) / 2 * u.micron
@@ -248,7 +248,10 @@ class Spectrometer(Instrument):
 
         # window sizes
         pixel_window_edge = (
-            wl_sol_func_reverse(wl_bin) * wl_solution_data.data.unit
+            wl_sol_func_reverse(
+                u.Quantity(wl_bin, wl_solution_data.wl_grid.unit)
+            )
+            * wl_solution_data.data.unit
         )
         window_spectral_width = (
             np.abs(pixel_window_edge[1:] - pixel_window_edge[0:-1]) / delta
-- 
2.43.0


From 6df8e05dc95b13650ea95bacc8317b1929a67ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 22/48] fix: repeated payload entries with the same value are
 all kept

---
 exorad/tasks/loadOptions.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index c13f8d8..3a65380 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -116,14 +116,15 @@ class LoadOptions(Task):
             if ch.tag in root_dict:
                 # if an other instance of same tag exists, transform into a dict
                 attr = root_dict[ch.tag]
-                if isinstance(attr, OrderedDict):
-                    attr[value] = retval
-                else:
-                    if not isinstance(attr, str):
-                        dtmp = OrderedDict(
-                            [(attr["value"], attr), (value, retval)]
-                        )
-                        root_dict[ch.tag] = dtmp
+                if not isinstance(attr, OrderedDict):
+                    attr = OrderedDict([(attr["value"], attr)])
+                    root_dict[ch.tag] = attr
+                # instances with the same value are all kept
+                key, n = value, 1
+                while key in attr:
+                    n += 1
+                    key = "{}_{}".format(value, n)
+                attr[key] = retval
             else:
                 # othewise, set new attr
                 root_dict[ch.tag] = retval
-- 
2.43.0


From 9c3727fa9e4c5bc35018a011c5d21867ff53c188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 23/48] fix: optical elements sharing a name are all propagated

---
 exorad/models/optics/opticalPath.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index 4734f0f..4c6256c 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -212,9 +212,15 @@ class OpticalPath(Logger):
             Dictionary of optical elements to prepend.
         """
         # Prepend the new optical elements to the existing ones
-        self.optical_element_dict = OrderedDict(
-            list(optical_element_dict.items()) + list(self.optical_element_dict.items())
-        )
+        elements = OrderedDict(optical_element_dict)
+        for name, element in self.optical_element_dict.items():
+            # elements sharing a name are all kept
+            key, n = name, 1
+            while key in elements:
+                n += 1
+                key = f"{name}_{n}"
+            elements[key] = element
+        self.optical_element_dict = elements
 
     def _prepare_elements(self):
         """
@@ -276,8 +282,8 @@ class OpticalPath(Logger):
                     out_radiance.slit = True
                     self.slit_width = opt_el[other_el].description["width"]["value"]
             # Store the radiance data
-            self.radiance_dict[el.name] = copy.deepcopy(out_radiance)
-            self.radiance_table[el.name] = copy.deepcopy(out_radiance.data)
+            self.radiance_dict[k] = copy.deepcopy(out_radiance)
+            self.radiance_table[k] = copy.deepcopy(out_radiance.data)
             self.debug(f"Final radiance: {out_radiance.data}")
         return self.radiance_dict
 
-- 
2.43.0


From 6b7fcb468b871c68c917e761954e02eeb3c5d6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 24/48] fix: a failing online version check does not prevent
 the import

---
 exorad/utils/version_control.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index 1a45584..6fba637 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -47,15 +47,17 @@ class VersionControl(Logger):
             )
         )
         self.debug("package url: {}".format(url))
-        req = requests.get(url)
-        if req.status_code == requests.codes.ok:
-            self.status_code = True
-            req = req.json()
-            content = base64.b64decode(req["content"])
-            content = content.decode("ascii")
-            content = content.splitlines()
-        else:
-            self.status_code = False
+        self.status_code = False
+        content = None
+        try:
+            req = requests.get(url, timeout=3)
+            if req.status_code == requests.codes.ok:
+                content = base64.b64decode(req.json()["content"])
+                content = content.decode("utf-8")
+                content = content.splitlines()
+                self.status_code = True
+        except (requests.exceptions.RequestException, KeyError, ValueError):
+            self.debug("impossible to read the changelog online")
             content = None
         return content
 
-- 
2.43.0


From 42a6036d43a1105cdb8b558f7ba13e80044dbd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 25/48] fix: the version check leaves the default socket
 timeout alone

---
 exorad/utils/version_control.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index 6fba637..55609c6 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -93,10 +93,7 @@ class VersionControl(Logger):
         solution from https://stackoverflow.com/a/33117579
         """
         try:
-            socket.setdefaulttimeout(timeout)
-            socket.socket(socket.AF_INET, socket.SOCK_STREAM).connect(
-                (host, port)
-            )
+            socket.create_connection((host, port), timeout=timeout).close()
             return True
         except OSError as ex:
             print(ex)
-- 
2.43.0


From ef9cd218a49f1510cc06d6a17b2380031141e4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 26/48] fix: the package can be imported from a git worktree

---
 exorad/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/__init__.py b/exorad/__init__.py
index 33efa29..62539c4 100644
--- a/exorad/__init__.py
+++ b/exorad/__init__.py
@@ -17,8 +17,8 @@ except NameError:
 
 __commit__ = None
 __branch__ = None
-if __base_dir__ is not None and os.path.exists(
-    os.path.join(__base_dir__, ".git")
+if __base_dir__ is not None and os.path.isfile(
+    os.path.join(__base_dir__, ".git", "HEAD")
 ):
     git_folder = os.path.join(__base_dir__, ".git")
     with open(os.path.join(git_folder, "HEAD")) as fp:
-- 
2.43.0


From c050b7da1b94e6950566093caf03c47169b34d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 27/48] fix: do not delete an input file to replace it with the
 output

---
 exorad/exorad.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index 9c27b0d..fce08c9 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -62,6 +62,16 @@ def standard_pipeline(
     if output is not None:
         if replace:
             if os.path.exists(output):
+                for source in (options, target_list):
+                    if isinstance(source, str) and (
+                        os.path.exists(source)
+                        and os.path.samefile(source, output)
+                    ):
+                        raise OSError(
+                            "the output file is also an input: {}".format(
+                                output
+                            )
+                        )
                 os.remove(output)
 
         out_dir = pathlib.Path(output).parent.absolute()
-- 
2.43.0


From 8b69b3227a1f397394e14068bb759c01232fc21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 28/48] fix: custom noise given as a function of wavelength

---
 exorad/models/noise.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index a6f524d..a7e5917 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -3,6 +3,7 @@ from collections import OrderedDict
 
 import numpy as np
 from astropy import units as u
+from scipy.interpolate import interp1d
 
 from exorad.models.signal import CustomSignal
 from exorad.models.signal import Signal
@@ -173,23 +174,31 @@ def photon_noise_variance(table, out):
 
 def add_custom_noise(custom, wl, out):
     if "data" in custom:
-        col_name = [
+        col_names = [
             col for col in custom["data"].keys() if "Wavelength" not in col
         ]
-        custom_noise = Signal(
-            custom["data"]["Wavelength"], custom["data"][col_name]
-        )
-        custom_noise.spectral_rebin(wl)
-        out["{}_noise".format(col_name)] = custom_noise.data
-        logger.debug(
-            "{} added as custom noise :{}".format(col_name, custom_noise.data)
-        )
-        out["total_noise"] = np.sqrt(
-            out["total_noise"] * out["total_noise"]
-            + custom_noise.data * custom_noise.data
-        )
+        wl_data = custom["data"]["Wavelength"]
+        for col_name in col_names:
+            noise_func = interp1d(
+                wl_data,
+                custom["data"][col_name],
+                assume_sorted=False,
+                fill_value=0.0,
+                bounds_error=False,
+            )
+            custom_noise = (
+                noise_func(wl.to(wl_data.unit or u.um).value) * u.hr**0.5
+            )
+            out["{}_noise".format(col_name)] = custom_noise
+            logger.debug(
+                "{} added as custom noise :{}".format(col_name, custom_noise)
+            )
+            out["total_noise"] = np.sqrt(
+                out["total_noise"] * out["total_noise"]
+                + custom_noise * custom_noise
+            )
 
-    if isinstance(custom, OrderedDict):
+    elif isinstance(custom, OrderedDict):
         for contrib in custom:
             custom_noise = (
                 custom[contrib]["value"]
-- 
2.43.0


From e56734db120ae6724a8846ea32b8055065967f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 29/48] fix: the slit of a channel is used even when no element
 in front of it emits

---
 exorad/models/optics/opticalPath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index 4c6256c..6ec4bf9 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -262,6 +262,8 @@ class OpticalPath(Logger):
         self.debug(f"Optics list: {opt_list}")
         for i, k in enumerate(opt_list):
             el = opt_el[k]
+            if el.type == "slit":
+                self.slit_width = el.description["width"]["value"]
             self.debug(f"Propagating {el.name}")
             out_radiance = InstRadiance(wl_grid=wl, data=np.zeros(wl.size))
             out_radiance.position = el.position
@@ -280,7 +282,6 @@ class OpticalPath(Logger):
                 out_radiance.data *= opt_el[other_el].transmission
                 if opt_el[other_el].type == "slit":
                     out_radiance.slit = True
-                    self.slit_width = opt_el[other_el].description["width"]["value"]
             # Store the radiance data
             self.radiance_dict[k] = copy.deepcopy(out_radiance)
             self.radiance_table[k] = copy.deepcopy(out_radiance.data)
-- 
2.43.0


From 7ffd4c2dfe909e6db115a5357fb21d57408dc914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 30/48] fix: optical element data files whose wavelengths are
 not in micron

---
 exorad/models/optics/opticalElement.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/exorad/models/optics/opticalElement.py b/exorad/models/optics/opticalElement.py
index dccbb1e..8e71a9c 100644
--- a/exorad/models/optics/opticalElement.py
+++ b/exorad/models/optics/opticalElement.py
@@ -137,6 +137,13 @@ class OpticalElement(Logger):
         else:
             return None
 
+    def _data_wavelength(self, wl_colname):
+        """Wavelengths of the data file, in the units of the wavelength grid."""
+        wl_data = self.description["data"][wl_colname]
+        if getattr(wl_data, "unit", None) is not None:
+            wl_data = wl_data.to(self.wl.unit)
+        return wl_data
+
     def _get_transmission(self):
         """
         Calculate the transmission of the optical element over the wavelength grid.
@@ -183,7 +190,7 @@ class OpticalElement(Logger):
             )
             # Create an interpolation function for transmission
             tr_func = interp1d(
-                self.description["data"][wl_colname],
+                self._data_wavelength(wl_colname),
                 self.description["data"][colname],
                 assume_sorted=False,
                 fill_value=0.0,
@@ -268,7 +275,7 @@ class OpticalElement(Logger):
 
             # Create an interpolation function for emissivity
             em_func = interp1d(
-                self.description["data"][wl_colname],
+                self._data_wavelength(wl_colname),
                 self.description["data"][em_colname],
                 assume_sorted=False,
                 fill_value=0.0,
-- 
2.43.0


From 85962af159d088028c16d0adad3ca10eb709a9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:37 +0000
Subject: [PATCH 31/48] fix: select the signal columns by their suffix, not by
 a substring

---
 exorad/models/noise.py        | 16 ++++++++++++++--
 exorad/tasks/targetHandler.py |  4 +++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index a7e5917..5cb4562 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -106,6 +106,18 @@ def multiaccum(channel, t_frame):
     return read_gain, shot_gain
 
 
+def signal_columns(table):
+    """
+    Returns the names of the columns of the table collecting the signals integrated over the
+    photometric apertures: what the star and each source of diffuse light contribute to.
+    """
+    return [
+        key
+        for key in table.keys()
+        if key.endswith("signal") or key == "star_signal_inAperture"
+    ]
+
+
 def photon_noise(table, channel, shot_gain, out):
     """
     Given the channel and channel descriptions, populates the output table with photon noises
@@ -128,7 +140,7 @@ def photon_noise(table, channel, shot_gain, out):
     """
     name = channel["value"]
 
-    signals = [key for key in table.keys() if "signal" in key]
+    signals = signal_columns(table)
     for key in signals:
         noise_key = "{}_noise".format(key)
         out[noise_key] = (
@@ -162,7 +174,7 @@ def photon_noise_variance(table, out):
         sum of photon variances
     """
     '''
-    signals = [key for key in table.keys() if "signal" in key]
+    signals = signal_columns(table)
     _photon_noise_variance = (
         np.zeros(out["frameTime"].size) * (u.count / u.s) ** 2 * u.hr
     )
diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index c3cf26d..6f9bf77 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -175,7 +175,9 @@ class EstimateMaxSignal(Task):
         self.info("estimating max signal in pixel")
         target = self.get_task_param("target")
         table = target.table
-        signals = [key for key in table.keys() if "Max" in key]
+        signals = [
+            key for key in table.keys() if key.endswith("_MaxSignal_inPixel")
+        ]
         max_signal = np.zeros(table["Wavelength"].size) * u.count / u.s
         for key in signals:
             max_signal += table[key]
-- 
2.43.0


From 02a6bf471b93b7f4f2b6f61118006b95f007f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 32/48] fix: a task without parameters can be called

---
 exorad/tasks/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exorad/tasks/task.py b/exorad/tasks/task.py
index 643023f..e223fb2 100644
--- a/exorad/tasks/task.py
+++ b/exorad/tasks/task.py
@@ -33,6 +33,8 @@ class Task(Logger):
     def __call__(self, **kwargs):
         self.set_log_name()
         self._task_input = kwargs
+        if self._task_params is None:
+            self._task_params = {}
         self._validate_input_params()
         self._populate_empty_param()
         self.execute()
-- 
2.43.0


From c6ad4a91a27badce7ae925b944a1cbddba9471f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 33/48] fix: wavelengths and pixel sizes that are not in micron

---
 exorad/models/instruments/photometer.py   | 7 +++++--
 exorad/models/instruments/spectrometer.py | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 48e58c6..878c29a 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -24,6 +24,7 @@ class Photometer(Instrument):
             self.description["wl_max"]["value"]
             - self.description["wl_min"]["value"]
         )
+        wl_c, bandwidth = wl_c.to(u.um), bandwidth.to(u.um)
         left_bin_edge = wl_c - 0.5 * bandwidth
         right_bin_edge = wl_c + 0.5 * bandwidth
         self.table["chName"] = [self.name]
@@ -100,7 +101,8 @@ class Photometer(Instrument):
                     * self.table["Wavelength"]
                     * self.description["Fnum_y"]["value"]
                     * self.table["Wavelength"]
-                    / self.description["detector"]["delta_pix"]["value"] ** 2
+                    / self.description["detector"]["delta_pix"]["value"].to(u.um)
+                    ** 2
                 )
         elif "EnE" in self.description["aperture"].keys():
             if psf_format == "pixel_based":
@@ -127,7 +129,8 @@ class Photometer(Instrument):
                     * self.table["Wavelength"]
                     * self.description["Fnum_y"]["value"]
                     * self.table["Wavelength"]
-                    / self.description["detector"]["delta_pix"]["value"] ** 2
+                    / self.description["detector"]["delta_pix"]["value"].to(u.um)
+                    ** 2
                 )
         return window_size_px
 
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 83c6ef2..1f98d55 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -97,8 +97,8 @@ class Spectrometer(Instrument):
 
         # preparing the table
         self.table["chName"] = [self.name] * wl_bin_c.size
-        self.table["Wavelength"] = wl_bin_c
-        self.table["Bandwidth"] = wl_bin_width
+        self.table["Wavelength"] = wl_bin_c.to(u.um)
+        self.table["Bandwidth"] = wl_bin_width.to(u.um)
         self.table["LeftBinEdge"] = (
             self.table["Wavelength"] - 0.5 * self.table["Bandwidth"]
         )
-- 
2.43.0


From e0afd5140f31027ef723a9d478c6a3c069aacd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 34/48] fix: number of reads when frame time and frequency are
 not in s and Hz

---
 exorad/models/noise.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index 5cb4562..5a6d0f3 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -70,7 +70,12 @@ def multiaccum(channel, t_frame):
     float
         shot noise gain
     """
-    nRead = np.floor(t_frame * channel["detector"]["freqNDR"]["value"])
+    # the number of reads: the units of time and frequency have to cancel out first
+    nRead = np.floor(
+        (t_frame * channel["detector"]["freqNDR"]["value"]).to(
+            u.dimensionless_unscaled
+        )
+    )
 
     if "multiaccumM" in channel["detector"]:
         m = channel["detector"]["multiaccumM"]["value"]
-- 
2.43.0


From 4d5406c891b28d17d508eaf654eff011ae723f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:07 +0000
Subject: [PATCH 35/48] fix: wavelengths of the encircled energy solution that
 are not in micron

---
 exorad/models/instruments/spectrometer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 1f98d55..8eeb0d4 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -262,7 +262,10 @@ class Spectrometer(Instrument):
             # todo define spatial apertures
             self.debug("Encircle energy solution found")
             EncE_sol = interp1d(
-                self.description["EncESolution"]["data"]["Wavelength"],
+                u.Quantity(
+                    self.description["EncESolution"]["data"]["Wavelength"],
+                    u.um,
+                ),
                 self.description["EncESolution"]["data"]["EE"],
                 assume_sorted=False,
                 fill_value="extrapolate",
-- 
2.43.0


From a93f177b614ac9f52b988f20dfc3c1cec0c80a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:32 +0000
Subject: [PATCH 36/48] fix: searching a target in a list of stars without
 planets

---
 exorad/models/targetlist.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 1d3f81b..1555117 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -96,7 +96,12 @@ class BaseTargetList(Logger):
         for target in self.target:
             if re.search(
                 searchName, compactString(str(target.star.name))
-            ) or re.search(searchName, compactString(str(target.planet.name))):
+            ) or (
+                hasattr(target, "planet")
+                and re.search(
+                    searchName, compactString(str(target.planet.name))
+                )
+            ):
                 returnList.append(target)
 
         return returnList
@@ -442,7 +447,12 @@ class OldExcelTargetList(Logger):
         for target in self.target:
             if re.search(
                 searchName, compactString(str(target.star.name))
-            ) or re.search(searchName, compactString(str(target.planet.name))):
+            ) or (
+                hasattr(target, "planet")
+                and re.search(
+                    searchName, compactString(str(target.planet.name))
+                )
+            ):
                 returnList.append(target)
 
         return returnList
-- 
2.43.0


From e3e4165c4868458cb73f154aa1f1b5a297f2a61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:32 +0000
Subject: [PATCH 37/48] fix: units with spaces in a target list were ignored

---
 exorad/models/targetlist.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 1555117..fffdfb2 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -190,7 +190,11 @@ class CSVTargetList(BaseTargetList):
         star_k = [k for k in self.tmpTab.keys() if "star" in k]
         units = []
         for n, k in enumerate(star_k):
-            if len(k.split(" ")) == 3:
+            if "[" in k:
+                # the unit may contain spaces
+                un = k[k.find("[") :]
+                units.append(1 * u.Unit(stripUnitString(un)))
+            elif len(k.split(" ")) == 3:
                 un = k.split(" ")[2]
                 units.append(1 * u.Unit(stripUnitString(un)))
             else:
@@ -213,7 +217,11 @@ class CSVTargetList(BaseTargetList):
         planet_k = [k for k in self.tmpTab.keys() if "planet" in k]
         units = []
         for n, k in enumerate(planet_k):
-            if len(k.split(" ")) == 3:
+            if "[" in k:
+                # the unit may contain spaces
+                un = k[k.find("[") :]
+                units.append(1 * u.Unit(stripUnitString(un)))
+            elif len(k.split(" ")) == 3:
                 un = k.split(" ")[2]
                 units.append(1 * u.Unit(stripUnitString(un)))
             else:
-- 
2.43.0


From 259b490509acd801581bd3a424b06a86e4de8c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:54 +0000
Subject: [PATCH 38/48] fix: coarse samples were read as zero or refused when
 rebinned to a finer grid

---
 exorad/utils/exolib.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 0d0c66d..7ebc296 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -41,10 +41,6 @@ def rebin(x, xp, fp):
         )
         raise ValueError
 
-    idx = np.where(np.logical_and(xp > 0.9 * x.min(), xp < 1.1 * x.max()))[0]
-    xp = xp[idx]
-    fp = fp[idx]
-
     if not hasattr(fp, "unit"):
         logger.debug("No units found for fp. Forced to None")
         fp *= u.Unit()
@@ -63,20 +59,29 @@ def rebin(x, xp, fp):
         x = np.delete(x, id)
 
     # remove duplicates
-    while np.diff(xp).min() == 0:
+    while xp.size > 1 and np.diff(xp).min() == 0:
         logger.debug("duplicate found in input x array: removing it")
         id = np.argmin(np.diff(xp))
         xp = np.delete(xp, id)
         fp = np.delete(fp, id)
 
-    while np.diff(x).min() == 0:
+    while x.size > 1 and np.diff(x).min() == 0:
         logger.debug("duplicate found in new x array: removing it")
         id = np.argmin(np.diff(x))
         x = np.delete(x, id)
 
-    if np.diff(xp).max() < np.diff(x).min():
+    # samples in the range of the new grid
+    idx = np.where(np.logical_and(xp > 0.9 * x.min(), xp < 1.1 * x.max()))[0]
+
+    if (
+        idx.size > 1
+        and x.size > 1
+        and np.diff(xp[idx]).max() < np.diff(x).min()
+    ):
         # Binning!
         logger.debug("binning")
+        xp = xp[idx]
+        fp = fp[idx]
         bin_x = 0.5 * (x[1:] + x[:-1])
         x0 = x[0] - (bin_x[0] - x[0]) / 2.0
         x1 = x[-1] + (x[-1] - bin_x[-1]) / 2.0
-- 
2.43.0


From 5d7c54b8575c8b1c9a3c81d6700ddda4f2ae91ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:59 +0000
Subject: [PATCH 39/48] fix: elements without text made a payload description
 unreadable

---
 exorad/tasks/loadOptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 3a65380..de7e1df 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -77,7 +77,7 @@ class LoadOptions(Task):
             for key in list(ch.attrib.keys()):
                 retval[key] = ch.attrib[key]
 
-            value = compactString(ch.text)
+            value = compactString(ch.text or "")
             if (value is not None) and (value != ""):
                 try:
                     value = int(value)
-- 
2.43.0


From a24c5c1dcf78285a40ee345e084e22c867e0a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:58 +0000
Subject: [PATCH 40/48] fix: dictionaries could not be read by documents
 without a ConfigPath

---
 exorad/tasks/loadOptions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index de7e1df..0d64aed 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -154,9 +154,9 @@ class LoadOptions(Task):
         if "datadict" in root_dict:
             attrValue = root_dict["datadict"]
             datafile = attrValue
-            datafile = datafile["value"].replace(
-                "__ConfigPath__", self.configPath
-            )
+            datafile = datafile["value"]
+            if "__ConfigPath__" in datafile:
+                datafile = datafile.replace("__ConfigPath__", self.configPath)
             try:
                 data = self.__read_datadict__(datafile)
                 root_dict["data"] = data
@@ -166,9 +166,9 @@ class LoadOptions(Task):
         if "config_dict" in root_dict:
             attrValue = root_dict["config_dict"]
             datafile = attrValue
-            datafile = datafile["value"].replace(
-                "__ConfigPath__", self.configPath
-            )
+            datafile = datafile["value"]
+            if "__ConfigPath__" in datafile:
+                datafile = datafile.replace("__ConfigPath__", self.configPath)
             try:
                 data = self.__read_datadict__(datafile)
                 root_dict = data
-- 
2.43.0


From eb10e2ef68e79fefb0be39ca27d26a714e52d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 41/48] fix: payloads and target lists that are not files could
 not be saved

standard_pipeline copies its inputs beside the output file, also when they
are a dictionary or a table, which the tasks that read them accept.
---
 exorad/exorad.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index fce08c9..7429b3b 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -79,14 +79,13 @@ def standard_pipeline(
             os.makedirs(out_dir)
             logger.info("output directory created")
         logger.info("output directory set as {}".format(out_dir))
-        try:
-            shutil.copy(options, out_dir)
-        except shutil.SameFileError:
-            pass
-        try:
-            shutil.copy(target_list, out_dir)
-        except shutil.SameFileError:
-            pass
+        for source in (options, target_list):
+            if not isinstance(source, (str, os.PathLike)):
+                continue  # not a file
+            try:
+                shutil.copy(source, out_dir)
+            except shutil.SameFileError:
+                pass
     else:
         out_dir = None
 
-- 
2.43.0


From 2c123b77cad8825ea6175813ff86e50dc6baa34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 42/48] fix: lists of strings lost characters when stored

Strings longer than 64 bytes were cut and characters outside ASCII dropped.
---
 exorad/output/hdf5/hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index 1f8c49f..3e6f653 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -127,9 +127,9 @@ class HDF5OutputGroup(OutputGroup):
         return HDF5OutputGroup(entry)
 
     def write_string_array(self, string_name, string_array, metadata=None):
-        asciiList = [n.encode("ascii", "ignore") for n in string_array]
+        encoded = [n.encode("utf-8") for n in string_array]
         ds = self._entry.create_dataset(
-            str(string_name), (len(asciiList), 1), "S64", asciiList
+            str(string_name), (len(encoded), 1), h5py.string_dtype(), encoded
         )
 
         if metadata:
-- 
2.43.0


From cb451635f604b3309d8269ecf2677a65e30b3bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 43/48] fix: numbers of other numpy types could not be stored

---
 exorad/output/hdf5/util.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 3cdc912..d50ec16 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -123,9 +123,8 @@ def store_thing(output, key, item):
         (
             float,
             int,
-            np.int64,
-            np.int32,
-            np.float64,
+            np.number,
+            np.bool_,
         ),
     ):
         output.write_scalar(key, item)
-- 
2.43.0


From b83c63e28d79269db6fbfb0b946ae2c5190de8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 44/48] fix: an answer without a changelog does not prevent the
 import

---
 exorad/utils/version_control.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index 55609c6..38807af 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -56,7 +56,12 @@ class VersionControl(Logger):
                 content = content.decode("utf-8")
                 content = content.splitlines()
                 self.status_code = True
-        except (requests.exceptions.RequestException, KeyError, ValueError):
+        except (
+            requests.exceptions.RequestException,
+            KeyError,
+            TypeError,
+            ValueError,
+        ):
             self.debug("impossible to read the changelog online")
             content = None
         return content
-- 
2.43.0


From 2d96a8766ca1e9b08e12b7689746050888c5b8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 45/48] fix: the changelog of newer versions was cut where a
 text contains the current version

---
 exorad/utils/version_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index 38807af..d31bebd 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -82,7 +82,7 @@ class VersionControl(Logger):
                     message += line + "\n"
                     new_ver = line[line.find("[") + 1 : line.find("]")]
                     for line_ in self.content[i + 1 :]:
-                        if self.current_version in line_:
+                        if "## [{}]".format(self.current_version) in line_:
                             break
                         elif line_ != "":
                             message += line_ + "\n"
-- 
2.43.0


From 965471c373dba3808e3871ff74db3cb0362762a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:57 +0000
Subject: [PATCH 46/48] fix: the zodiacal map entry nearest to the target is
 the nearest on the sky

---
 exorad/models/foregrounds/zodiacalForeground.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/exorad/models/foregrounds/zodiacalForeground.py b/exorad/models/foregrounds/zodiacalForeground.py
index 8db5daa..d5156ac 100644
--- a/exorad/models/foregrounds/zodiacalForeground.py
+++ b/exorad/models/foregrounds/zodiacalForeground.py
@@ -81,6 +81,7 @@ class ZodiacalFrg(Logger):
         It's based on Kelsall et al. 1998 model
         """
         import os
+        from astropy.coordinates import angular_separation
         from astropy.io.misc.hdf5 import read_table_hdf5
         import numpy as np
         from pathlib import Path
@@ -118,9 +119,12 @@ class ZodiacalFrg(Logger):
         try:
             zodi_table = read_table_hdf5(zodi_map_file)
             self.debug(zodi_table)
-            distance = (zodi_table["ra_icrs"] * u.deg - ra_input) ** 2 + (
-                zodi_table["dec_icrs"] * u.deg - dec_input
-            ) ** 2
+            distance = angular_separation(
+                zodi_table["ra_icrs"] * u.deg,
+                zodi_table["dec_icrs"] * u.deg,
+                ra_input,
+                dec_input,
+            )
             idx = np.argmin(distance)
             self.debug("selected line {}".format(idx))
             self.debug(zodi_table[idx])
-- 
2.43.0


From 41b8201687d0feb36611e18738ff035993b40089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 47/48] fix: a target observed again kept the foregrounds of
 the earlier observation

---
 exorad/tasks/foregroundHandler.py | 4 +++-
 exorad/tasks/targetHandler.py     | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/foregroundHandler.py b/exorad/tasks/foregroundHandler.py
index 487563c..6b9172e 100644
--- a/exorad/tasks/foregroundHandler.py
+++ b/exorad/tasks/foregroundHandler.py
@@ -155,9 +155,11 @@ class EstimateForegrounds(Task):
         estimateZodi = EstimateZodi()
         estimateForeground = EstimateForeground()
 
-        # sky transmission is accumulated over the foregrounds: start anew
+        # foregrounds and sky transmission are accumulated: start anew
         if hasattr(target, "skyTransmission"):
             del target.skyTransmission
+        if hasattr(target, "foreground"):
+            del target.foreground
 
         if isinstance(foregrounds, OrderedDict):
             for foreground in foregrounds:
diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 6f9bf77..ff3d973 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -253,6 +253,11 @@ class ObserveTarget(Task):
                 wl_range=(wl_min, wl_max),
             )
             target = propagateForegroundLight(channels=channels, target=target)
+        else:
+            # left by an observation through other foregrounds
+            for name in ("foreground", "skyTransmission"):
+                if hasattr(target, name):
+                    delattr(target, name)
 
         target, sed = loadSource(
             target=target,
-- 
2.43.0


From d873ba221c5d579b122d3c7f9c5fb77e4cd57086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:33 +0000
Subject: [PATCH 48/48] fix: keep the units of the quantities of a list written
 to a file

---
 exorad/output/hdf5/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index d50ec16..433e086 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -153,6 +153,8 @@ def store_thing(output, key, item):
             output.write_string_array(key, item)
         else:
             try:
+                if any(isinstance(x, u.Quantity) for x in item):
+                    raise TypeError("an array would lose the units")
                 output.write_array(key, np.array(item))
 
             except TypeError:
-- 
2.43.0

