From 3eac28fa0a3f233b3231348c0fa1ca471a3e6fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:27 +0000
Subject: [PATCH 01/34] fix: store the wavelengths, not the responses, as
 wavelengths when converting RSR to HDF5

---
 pyspectral/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 14a9dca..9233963 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -327,7 +327,7 @@ def _write_single_detector_data(grp, sensor, scale, detectors):
     dset = grp.create_dataset("response", arr.shape, dtype="f")
     dset[...] = arr
 
-    _save_wavelengths(grp, arr, scale)
+    _save_wavelengths(grp, sensor.rsr["wavelength"], scale)
 
 
 def _save_wavelengths(grp, arr, scale):
@@ -350,7 +350,7 @@ def _write_multidetector_data(grp, sensor, scale, detectors):
         dset = det_grp.create_dataset("response", arr.shape, dtype="f")
         dset[...] = arr
 
-    _save_wavelengths(grp, arr, scale)
+    _save_wavelengths(grp, sensor.rsr[detectors[0]]["wavelength"], scale)
 
 
 def download_rsr(dest_dir: str | Path | None = None, dry_run: bool = False) -> None:
-- 
2.43.0


From 349aa5ec687ba2d09f373bc5cda1c1b5d24eff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:33 +0000
Subject: [PATCH 02/34] fix: Rayleigh reflectance of Numpy inputs for
 wavelengths outside the LUT range

---
 pyspectral/rayleigh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/rayleigh.py b/pyspectral/rayleigh.py
index caa585e..11b6ee4 100644
--- a/pyspectral/rayleigh.py
+++ b/pyspectral/rayleigh.py
@@ -237,7 +237,7 @@ class Rayleigh(RayleighConfigBaseClass):
                                              chunks=getattr(res, "chunks", None))
 
         res = np.clip(res, 0, 100)
-        if compute:
+        if compute and hasattr(res, "compute"):
             res = res.compute()
         return res
 
-- 
2.43.0


From 59ceb65571b73bd68a1fecd55bf933347d5b8e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:38 +0000
Subject: [PATCH 03/34] fix: accept Python scalars and integer radiances in the
 inverse Planck function

---
 pyspectral/blackbody.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyspectral/blackbody.py b/pyspectral/blackbody.py
index cbfcfbd..ce8a534 100644
--- a/pyspectral/blackbody.py
+++ b/pyspectral/blackbody.py
@@ -35,6 +35,11 @@ def blackbody_rad2temp(wavelength, radiance):
         The derived temperature in Kelvin.
 
     """
+    if not hasattr(radiance, "dtype"):
+        radiance = np.asarray(radiance)
+    if radiance.dtype.kind != "f":
+        # do the calculations in double precision
+        radiance = radiance.astype(np.float64)
     if getattr(wavelength, "dtype", None) != radiance.dtype:
         # avoid a wavelength numpy scalar upcasting radiances (ex. 32-bit to 64-bit float)
         wavelength = radiance.dtype.type(wavelength)
-- 
2.43.0


From 7a41e2759b52995f58275dd911b2115e2585768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:42 +0000
Subject: [PATCH 04/34] fix: allow keyword arguments for functions mapped over
 the blocks of an array

---
 pyspectral/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 9233963..158de26 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -679,6 +679,11 @@ def use_map_blocks_on(argument_to_run_map_blocks_on):
 
         @wraps(f)
         def wrapper(*args, **kwargs):
+            bound_args = list(args)
+            for name in argspec.args[len(args):argument_index + 1]:
+                # arguments up to the chunked one may be given by keyword
+                bound_args.append(kwargs.pop(name))
+            args = tuple(bound_args)
             array = args[argument_index]
             chunks = getattr(array, "chunks", None)
             if chunks is None:
-- 
2.43.0


From 65cf98e8b980c4aece82e854fd9095d043cd41c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:46 +0000
Subject: [PATCH 05/34] fix: spectral response integral after conversion to
 wavenumber space

---
 pyspectral/rsr_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspectral/rsr_reader.py b/pyspectral/rsr_reader.py
index 7f98def..e831ae3 100644
--- a/pyspectral/rsr_reader.py
+++ b/pyspectral/rsr_reader.py
@@ -218,9 +218,9 @@ class RelativeSpectralResponse(_RSRDataBase):
 
         intg = {}
         for detector_name in self.rsr[band_name].keys():
-            wvl = self.rsr[band_name][detector_name]['wavelength']
+            wave = self.rsr[band_name][detector_name][self._wavespace]
             resp = self.rsr[band_name][detector_name]['response']
-            intg[detector_name] = trapezoid(resp, wvl)
+            intg[detector_name] = trapezoid(resp, wave)
         return intg
 
     def convert(self):
-- 
2.43.0


From d9afa2089c6a62e6f82ace262e0401d18fa32eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:52 +0000
Subject: [PATCH 06/34] fix: recognise instrument names without slash and dash,
 e.g. mersi1 on FY-3A

---
 pyspectral/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 158de26..1d660bd 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -665,6 +665,9 @@ def are_instruments_identical(name1, name2):
         return True
     if name1 == INSTRUMENT_TRANSLATION_DASH2SLASH.get(name2):
         return True
+    # The file names have neither slashes nor dashes, e.g. "avhrr1" and "mersi1"
+    if name1.replace("/", "").replace("-", "") == name2:
+        return True
     return False
 
 
-- 
2.43.0


From fe100c6023eb3125654e61dc16f7380c4136e5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:57 +0000
Subject: [PATCH 07/34] fix: SEVIRI regression coefficients for the water
 vapour channels by their standard names

---
 pyspectral/radiance_tb_conversion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 97a925e..f260b63 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -61,6 +61,9 @@ SEVIRI = {'IR3.9': {'Meteosat-8': [2567.330, 0.9956, 3.410],
                      'Meteosat-9': [751.792, 0.9981, 0.561],
                      },
           }
+# The water vapour channels are named IR6.2 and IR7.3 in the band name translations:
+SEVIRI['IR6.2'] = SEVIRI['WV6.2']
+SEVIRI['IR7.3'] = SEVIRI['WV7.3']
 
 
 class RadTbConverter(object):
-- 
2.43.0


From ad8ace1b75eda265e71d69dbdf97b632b0472e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 08/34] fix: band name translations of AVHRR/3 and METimage for
 the names of the instruments

---
 pyspectral/bandnames.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyspectral/bandnames.py b/pyspectral/bandnames.py
index 7661ea2..9b102de 100644
--- a/pyspectral/bandnames.py
+++ b/pyspectral/bandnames.py
@@ -86,6 +86,9 @@ BANDNAMES['avhrr-3'] = {'1': 'ch1',
                         '3a': 'ch3a',
                         '4': 'ch4',
                         '5': 'ch5'}
+# The other spellings of the instrument name
+BANDNAMES['avhrr/3'] = BANDNAMES['avhrr-3']
+BANDNAMES['avhrr3'] = BANDNAMES['avhrr-3']
 
 BANDNAMES['abi'] = {'C01': 'ch1',
                     'C02': 'ch2',
@@ -209,3 +212,5 @@ BANDNAMES['VII'] = {'vii_443': 'vii-4',
                     'vii_12020': 'vii-39',
                     'vii_13345': 'vii-40',
                     }
+# The instrument name used for the RSR data
+BANDNAMES['metimage'] = BANDNAMES['VII']
-- 
2.43.0


From b10fe8b30f734ae512509d066676dc896cca489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:43 +0000
Subject: [PATCH 09/34] fix: keep undefined and masked brightness temperatures
 out of the 3.x reflectance and emissive part

---
 pyspectral/near_infrared_reflectance.py | 2 ++
 pyspectral/radiance_tb_conversion.py    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index ef33ba0..d707a13 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -242,6 +242,8 @@ class Calculator(RadTbConverter):
             res = self._r3x.compute()
         if is_masked:
             res = np.ma.masked_invalid(res)
+            for tbs in (tb_near_ir, tb_thermal):
+                res = np.ma.masked_where(np.ma.getmaskarray(tbs) | np.zeros(res.shape, dtype=bool), res)
         return res
 
     def _calculate_solar_radiance(self, tb_nir, sun_zenith):
diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index f260b63..e74dcdd 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -191,6 +191,8 @@ class RadTbConverter(object):
                 retv['radiance'] = index.map_blocks(self._getitem, lut_radiance, dtype=lut_radiance.dtype)
             except AttributeError:
                 retv['radiance'] = lut_radiance[index]
+            # An undefined temperature has no radiance
+            retv['radiance'] = np.where(np.isnan(tb_), np.nan, retv['radiance'])
             try:
                 retv['radiance'] = retv['radiance'].item()
             except (ValueError, AttributeError):
-- 
2.43.0


From 4bd2b720a05a5583167c2f440b8a9e63691bd88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:47 +0000
Subject: [PATCH 10/34] fix: create the Tb to radiance LUT file atomically

---
 pyspectral/radiance_tb_conversion.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index e74dcdd..f09a977 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -5,6 +5,8 @@ various satellite sensors
 """
 
 import logging
+import os
+import uuid
 from numbers import Number
 
 import numpy as np
@@ -216,7 +218,18 @@ class RadTbConverter(object):
         tb_ = np.arange(TB_MIN, TB_MAX, self.tb_resolution)
         retv = self.tb2radiance(tb_, normalized=normalized)
         rad = retv['radiance']
-        np.savez(filepath, tb=tb_, radiance=rad)
+        filepath = str(filepath)
+        if not filepath.endswith('.npz'):
+            filepath = filepath + '.npz'
+        # Other processes may look for the file at any time, so it has to be complete from the start:
+        tmp_filepath = '{0}.{1}.tmp'.format(filepath, uuid.uuid4().hex)
+        try:
+            with open(tmp_filepath, 'wb') as fp_:
+                np.savez(fp_, tb=tb_, radiance=rad)
+            os.replace(tmp_filepath, filepath)
+        finally:
+            if os.path.exists(tmp_filepath):
+                os.remove(tmp_filepath)
 
     @staticmethod
     def read_tb2rad_lut(filepath):
-- 
2.43.0


From 6e7dd8aac56b50b3d89454a56194c51bdea6bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 11/34] fix: use the LUT and the solar flux of the requested
 detector for the 3.x reflectance

---
 pyspectral/near_infrared_reflectance.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index d707a13..acf05b5 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -96,6 +96,11 @@ class Calculator(RadTbConverter):
                       "Will generate filename automatically")
             lutname = "tb2rad_lut_{0}_{1}_{band}".format(
                 self.platform_name.lower(), self.instrument.lower(), band=self.bandname.lower())
+            # The LUT depends on the detector and the wave space:
+            if self.detector != "det-1":
+                lutname += "_" + self.detector.lower()
+            if self.wavespace != WAVE_LENGTH:
+                lutname += "_" + self.wavespace
             self.lutfile = os.path.join(tb2rad_dir, lutname + ".npz")
 
     def _lutfile_from_config(self, options, tb2rad_dir):
@@ -156,7 +161,7 @@ class Calculator(RadTbConverter):
         solar_spectrum = \
             SolarIrradianceSpectrum(dlambda=0.0005,
                                     wavespace=self.wavespace)
-        self.solar_flux = solar_spectrum.inband_solarflux(self.rsr[self.bandname])
+        self.solar_flux = solar_spectrum.inband_solarflux(self.rsr[self.bandname][self.detector])
 
     def emissive_part_3x(self, tb=True):
         """Get the emissive part of the 3.x band."""
-- 
2.43.0


From 913d55a66bd5df230b9ae564c6ccdd1e13ecf735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:58 +0000
Subject: [PATCH 12/34] fix: never leave an up-to-date version file next to
 incomplete downloaded data

---
 pyspectral/utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 1d660bd..ff5081d 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -456,11 +456,20 @@ def _download_tarball_and_extract(tarball_url: str, local_pathname: Path, extrac
 
     tar_kwargs = {} if sys.version_info < (3, 12) else {"filter": "data"}
     with tarfile.open(local_pathname) as tar:
-        tar.extractall(extract_dir, **tar_kwargs)  # type: ignore
+        # Going through the complete archive first finds out if it is truncated. The version file
+        # tells that the data are complete, so it has to come last.
+        members = sorted(tar.getmembers(), key=_is_version_file)
+        tar.extractall(extract_dir, members=members, **tar_kwargs)  # type: ignore
 
     os.remove(local_pathname)
 
 
+def _is_version_file(member: tarfile.TarInfo) -> bool:
+    version_filenames = [RSR_DATA_VERSION_FILENAME]
+    version_filenames += [item["filename"] for item in ATM_CORRECTION_LUT_VERSION.values()]
+    return os.path.basename(member.name) in version_filenames
+
+
 def _tqdm_or_iter(an_iterable, **tqdm_kwargs):
     """Wrap an iterable with tqdm if it is available, otherwise return the iterable."""
     if TQDM_LOADED:
-- 
2.43.0


From ef44a7d17d7173ecad2422749ebdf70c4926c9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 13/34] fix: turning logging on again after it was turned off

---
 pyspectral/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index ff5081d..cf4f63a 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -514,6 +514,9 @@ class NullHandler(logging.Handler):
 
 def logging_off():
     """Turn logging off."""
+    global _is_logging_on
+
+    _is_logging_on = False
     logging.getLogger("").handlers = [NullHandler()]
 
 
-- 
2.43.0


From a85fe51b57580a3c23dec5ae43727837a0a3d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:09 +0000
Subject: [PATCH 14/34] fix: IR atmospherical correction of Numpy arrays
 without a mask

---
 pyspectral/atm_correction_ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/atm_correction_ir.py b/pyspectral/atm_correction_ir.py
index c19df0e..0fb606f 100644
--- a/pyspectral/atm_correction_ir.py
+++ b/pyspectral/atm_correction_ir.py
@@ -124,7 +124,7 @@ def viewzen_corr(data, view_zen):
     y0, x0 = np.ma.where(view_zen == 0)
     data[y0, x0] += tau0(data[y0, x0])
 
-    y, x = np.ma.where((view_zen > 0) & (view_zen < 90) & (~data.mask))
+    y, x = np.ma.where((view_zen > 0) & (view_zen < 90) & (~np.ma.getmaskarray(data)))
     data[y, x] += tau(data[y, x]) * delta(view_zen[y, x])
     return data
 
-- 
2.43.0


From 5400a3044d8ce8f55112b5640112e0a7285f5983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 15/34] fix: band by wavelength and radiance to Tb for
 converters in wavenumber space

---
 pyspectral/radiance_tb_conversion.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index f09a977..d309027 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -12,9 +12,16 @@ from numbers import Number
 import numpy as np
 from scipy.integrate import trapezoid
 
-from pyspectral.blackbody import C_SPEED, H_PLANCK, K_BOLTZMANN, blackbody, blackbody_wn
+from pyspectral.blackbody import C_SPEED, H_PLANCK, K_BOLTZMANN, blackbody, blackbody_wn, blackbody_wn_rad2temp
 from pyspectral.rsr_reader import RelativeSpectralResponse
-from pyspectral.utils import BANDNAMES, WAVE_LENGTH, WAVE_NUMBER, convert2wavenumber, get_bandname_from_wavelength
+from pyspectral.utils import (
+    BANDNAMES,
+    WAVE_LENGTH,
+    WAVE_NUMBER,
+    convert2wavenumber,
+    get_bandname_from_wavelength,
+    get_central_wave,
+)
 
 LOG = logging.getLogger(__name__)
 
@@ -134,7 +141,7 @@ class RadTbConverter(object):
             self.bandname = BANDNAMES.get(self.instrument, BANDNAMES['generic']).get(self.band, self.band)
         elif isinstance(self.band, Number):
             self.bandwavelength = self.band
-            self.bandname = get_bandname_from_wavelength(self.instrument, self.band, self.rsr)
+            self.bandname = get_bandname_from_wavelength(self.instrument, self.band, sensor.rsr)
 
         self.wavelength_or_wavenumber = (self.rsr[self.bandname][self.detector][self.wavespace] *
                                          self._wave_si_scale)
@@ -243,6 +250,8 @@ class RadTbConverter(object):
         rad:
             Radiance in SI units
         """
+        if self.wavespace == WAVE_NUMBER:
+            return blackbody_wn_rad2temp(get_central_wave(self.wavelength_or_wavenumber, self.response), rad)
         return radiance2tb(rad, self.rsr[self.bandname][self.detector]['central_wavelength'] * 1e-6)
 
 
-- 
2.43.0


From f0492beb71b70c3cf444f01da53594aeda511e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:25 +0000
Subject: [PATCH 16/34] fix: 3.x reflectance for instruments with a slash in
 the name

---
 pyspectral/near_infrared_reflectance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index acf05b5..6deca2f 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -94,8 +94,9 @@ class Calculator(RadTbConverter):
         if self.lutfile is None:
             LOG.debug("No lut filename available in config file. "
                       "Will generate filename automatically")
+            # The instrument name may have a slash, e.g. "avhrr/3"
             lutname = "tb2rad_lut_{0}_{1}_{band}".format(
-                self.platform_name.lower(), self.instrument.lower(), band=self.bandname.lower())
+                self.platform_name.lower(), self.instrument.lower().replace("/", ""), band=self.bandname.lower())
             # The LUT depends on the detector and the wave space:
             if self.detector != "det-1":
                 lutname += "_" + self.detector.lower()
-- 
2.43.0


From 51210e8c98834a5fa342a485d69fcdd784ec767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:24 +0000
Subject: [PATCH 17/34] fix: central wavelengths in micrometers when converting
 RSR given in other units to HDF5

---
 pyspectral/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index cf4f63a..0d1964f 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -320,7 +320,8 @@ def _write_single_detector_data(grp, sensor, scale, detectors):
     wvl = sensor.rsr["wavelength"][~np.isnan(sensor.rsr["wavelength"])]
     # Store detector central wavelength
     rsp = sensor.rsr["response"][~np.isnan(sensor.rsr["wavelength"])]
-    grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp)
+    # The central wavelength is always in micrometers
+    grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp) * scale * 1e6
 
     # Store resonse data
     arr = sensor.rsr["response"]
@@ -345,7 +346,8 @@ def _write_multidetector_data(grp, sensor, scale, detectors):
     for cur_det in detectors:
         det_grp = grp.create_group(cur_det)
         rsp = sensor.rsr[cur_det]["response"][~np.isnan(sensor.rsr[cur_det]["wavelength"])]
-        det_grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp)
+        # The central wavelength is always in micrometers
+        det_grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp) * scale * 1e6
         arr = sensor.rsr[cur_det]["response"]
         dset = det_grp.create_dataset("response", arr.shape, dtype="f")
         dset[...] = arr
-- 
2.43.0


From 0ac8af2721400f49d13465914e63fcf3b44adadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:21 +0000
Subject: [PATCH 18/34] fix: writing the responses of the solar SEVIRI bands to
 HDF5

---
 rsr_convert_scripts/seviri_rsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsr_convert_scripts/seviri_rsr.py b/rsr_convert_scripts/seviri_rsr.py
index 2b3daeb..c852e64 100644
--- a/rsr_convert_scripts/seviri_rsr.py
+++ b/rsr_convert_scripts/seviri_rsr.py
@@ -227,7 +227,7 @@ def generate_seviri_file(seviri, platform_name):
             dset[...] = arr
             try:
                 arr = seviri.rsr[key][sat_name]['95']
-            except ValueError:
+            except (ValueError, IndexError):
                 arr = seviri.rsr[key][sat_name]
             dset = grp.create_dataset('response', arr.shape, dtype='f')
             dset[...] = arr
-- 
2.43.0


From c66fcc81288b152bb84f97e995cc8691bbf1faa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:53 +0000
Subject: [PATCH 19/34] fix: integer overflow in the Tb to radiance LUT index
 for high temperatures or resolutions

---
 pyspectral/radiance_tb_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index d309027..96e1521 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -191,7 +191,7 @@ class RadTbConverter(object):
 
         if lut:
             lut_radiance = lut['radiance'].astype(tb_.dtype)
-            ntb = (tb_ * self.tb_scale).astype('int16')
+            ntb = (tb_ * self.tb_scale).astype('int32')
             start = int(lut['tb'][0] * self.tb_scale)
             retv = {}
             bounds = 0, lut_radiance.shape[0] - 1
-- 
2.43.0


From 22556325e2bcd2efacdf030f9dd6e2650f331279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:11 +0000
Subject: [PATCH 20/34] fix: interpolating the solar spectrum must not change
 its resolution in later calculations

---
 pyspectral/solar.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyspectral/solar.py b/pyspectral/solar.py
index 8159332..61e3bac 100644
--- a/pyspectral/solar.py
+++ b/pyspectral/solar.py
@@ -213,8 +213,7 @@ class SolarIrradianceSpectrum(object):
         else:
             ival_wavelength = None
 
-        if 'dlambda' in options:
-            self._dlambda = options['dlambda']
+        dlambda = options.get('dlambda', self._dlambda)
 
         if ival_wavelength is None:
             if self.wavespace == 'wavelength':
@@ -226,7 +225,7 @@ class SolarIrradianceSpectrum(object):
         else:
             start, end = ival_wavelength
 
-        xspl = np.linspace(start, end, int(round((end - start) / self._dlambda)) + 1)
+        xspl = np.linspace(start, end, int(round((end - start) / dlambda)) + 1)
         if self.wavespace == 'wavelength':
             ius = InterpolatedUnivariateSpline(
                 self.wavelength, self.irradiance)
-- 
2.43.0


From c875dc97979deec54e5729aaec4c26d6fe363c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:10 +0000
Subject: [PATCH 21/34] fix: masked sun zenith angles and CO2 band temperatures
 give undefined reflectances

---
 pyspectral/near_infrared_reflectance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index 6deca2f..8fb2f45 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -293,8 +293,12 @@ class Calculator(RadTbConverter):
 def get_as_array(variable):
     """Return variable as a Dask or Numpy array.
 
-    Variable may be a scalar, a list or a Numpy/Dask array.
+    Variable may be a scalar, a list or a Numpy/Dask array. Masked values are
+    undefined (NaN) in the array returned.
     """
+    if isinstance(variable, np.ma.MaskedArray) and variable.dtype.kind == "f":
+        variable = variable.filled(np.nan)
+
     if np.isscalar(variable):
         return asanyarray([variable, ])
 
-- 
2.43.0


From e02c8eeb146f513ff78e82111b53eb4f041d42d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:37 +0000
Subject: [PATCH 22/34] fix: keep the mask of dask arrays in the infrared limb
 correction

---
 pyspectral/atm_correction_ir.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspectral/atm_correction_ir.py b/pyspectral/atm_correction_ir.py
index 0fb606f..b0436c2 100644
--- a/pyspectral/atm_correction_ir.py
+++ b/pyspectral/atm_correction_ir.py
@@ -119,6 +119,9 @@ def viewzen_corr(data, view_zen):
         dask_data = da.where(view_zen == 0, data_tau0,
                              da.where((view_zen > 0) & (view_zen < 90),
                                       data_tau_delta, data))
+        if isinstance(getattr(data, '_meta', data), np.ma.MaskedArray):
+            # The mask is lost in da.where
+            dask_data = da.ma.masked_array(dask_data, mask=da.ma.getmaskarray(data))
         return dask_data
     # expect numpy types otherwise
     y0, x0 = np.ma.where(view_zen == 0)
-- 
2.43.0


From 3df1a1b9dda85a1fa1d401a5b96e4dc2e7b7065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:16 +0000
Subject: [PATCH 23/34] fix: invalidate the version file before files of a data
 store are replaced

---
 pyspectral/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 0d1964f..253fcac 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -459,13 +459,21 @@ def _download_tarball_and_extract(tarball_url: str, local_pathname: Path, extrac
     tar_kwargs = {} if sys.version_info < (3, 12) else {"filter": "data"}
     with tarfile.open(local_pathname) as tar:
         # Going through the complete archive first finds out if it is truncated. The version file
-        # tells that the data are complete, so it has to come last.
+        # tells that the data are complete, so it has to come last. An earlier one no longer does, once files
+        # are being replaced.
         members = sorted(tar.getmembers(), key=_is_version_file)
+        _remove_version_files(members, extract_dir)
         tar.extractall(extract_dir, members=members, **tar_kwargs)  # type: ignore
 
     os.remove(local_pathname)
 
 
+def _remove_version_files(members: list[tarfile.TarInfo], extract_dir: Path) -> None:
+    for member in members:
+        if _is_version_file(member):
+            (extract_dir / os.path.basename(member.name)).unlink(missing_ok=True)
+
+
 def _is_version_file(member: tarfile.TarInfo) -> bool:
     version_filenames = [RSR_DATA_VERSION_FILENAME]
     version_filenames += [item["filename"] for item in ATM_CORRECTION_LUT_VERSION.values()]
-- 
2.43.0


From e084733290a19242af60de884513bc98ccba974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:43 +0000
Subject: [PATCH 24/34] fix: read columns of raw response data by name also
 with recent numpy versions

---
 rsr_convert_scripts/ami_reader.py | 1 -
 rsr_convert_scripts/avhrr_rsr.py  | 1 -
 rsr_convert_scripts/cocts_rsr.py  | 1 -
 rsr_convert_scripts/mersi2_rsr.py | 1 -
 rsr_convert_scripts/viirs_rsr.py  | 2 +-
 rsr_convert_scripts/virr_rsr.py   | 1 -
 6 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/rsr_convert_scripts/ami_reader.py b/rsr_convert_scripts/ami_reader.py
index 8ed8e6b..7ad006c 100644
--- a/rsr_convert_scripts/ami_reader.py
+++ b/rsr_convert_scripts/ami_reader.py
@@ -58,7 +58,6 @@ class AmiRSR(InstrumentRSR):
     def _load(self, scale=10000.0):
         """Load the AMI RSR data for the band requested."""
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavenumber',
                                     'response'],
                              skip_header=4)
diff --git a/rsr_convert_scripts/avhrr_rsr.py b/rsr_convert_scripts/avhrr_rsr.py
index 97f632d..573bf9c 100644
--- a/rsr_convert_scripts/avhrr_rsr.py
+++ b/rsr_convert_scripts/avhrr_rsr.py
@@ -52,7 +52,6 @@ class AvhrrRSR(InstrumentRSR):
     def _load(self, scale=1.0):
         """Load the AVHRR RSR data for the band requested."""
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength',
                                     'response'],
                              skip_header=1)
diff --git a/rsr_convert_scripts/cocts_rsr.py b/rsr_convert_scripts/cocts_rsr.py
index 40d854b..a676f88 100644
--- a/rsr_convert_scripts/cocts_rsr.py
+++ b/rsr_convert_scripts/cocts_rsr.py
@@ -50,7 +50,6 @@ class COCTS_RSR(InstrumentRSR):
         Wavelength is given in nanometers.
         """
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength', 'ch1', 'ch2', 'ch3', 'ch4', 'ch5', 'ch6', 'ch7', 'ch8'],
                              skip_header=0)
 
diff --git a/rsr_convert_scripts/mersi2_rsr.py b/rsr_convert_scripts/mersi2_rsr.py
index c58597b..45bce1a 100644
--- a/rsr_convert_scripts/mersi2_rsr.py
+++ b/rsr_convert_scripts/mersi2_rsr.py
@@ -51,7 +51,6 @@ class Mersi2RSR(InstrumentRSR):
         Wavelength is given in nanometers.
         """
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength',
                                     'response'],
                              skip_header=0)
diff --git a/rsr_convert_scripts/viirs_rsr.py b/rsr_convert_scripts/viirs_rsr.py
index 9476572..603483d 100644
--- a/rsr_convert_scripts/viirs_rsr.py
+++ b/rsr_convert_scripts/viirs_rsr.py
@@ -131,7 +131,7 @@ class ViirsRSR(object):
                                  dtype=DTYPE1[self.platform_name])
         except ValueError:
             data = np.genfromtxt(self.filename,
-                                 unpack=True, skip_header=header_lines_to_skip,
+                                 skip_header=header_lines_to_skip,
                                  names=NAMES2[self.platform_name],
                                  dtype=DTYPE2[self.platform_name])
 
diff --git a/rsr_convert_scripts/virr_rsr.py b/rsr_convert_scripts/virr_rsr.py
index 5940660..4e7d7d6 100644
--- a/rsr_convert_scripts/virr_rsr.py
+++ b/rsr_convert_scripts/virr_rsr.py
@@ -49,7 +49,6 @@ class VirrRSR(InstrumentRSR):
         Wavelength is given in nanometers.
         """
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength',
                                     'response'],
                              skip_header=0)
-- 
2.43.0


From b12c19bf0cea4edb7510cff907e1c347df42ca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:43 +0000
Subject: [PATCH 25/34] fix: compare the wavelengths of the VIIRS detectors
 also when their numbers differ

---
 rsr_convert_scripts/metimage_rsr.py | 2 +-
 rsr_convert_scripts/viirs_rsr.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsr_convert_scripts/metimage_rsr.py b/rsr_convert_scripts/metimage_rsr.py
index 5052416..4fba01f 100644
--- a/rsr_convert_scripts/metimage_rsr.py
+++ b/rsr_convert_scripts/metimage_rsr.py
@@ -112,7 +112,7 @@ def generate_metimage_file(platform_name):
             wvl_is_constant = True
             for det in det_names[1:]:
                 det_wvl = np.unique(metimage.rsr[det]['wavelength'])
-                if not np.alltrue(wvl == det_wvl):
+                if not np.array_equal(wvl, det_wvl):
                     LOG.warning(
                         "Wavelngth arrays are not the same among detectors!")
                     wvl_is_constant = False
diff --git a/rsr_convert_scripts/viirs_rsr.py b/rsr_convert_scripts/viirs_rsr.py
index 603483d..838b4ba 100644
--- a/rsr_convert_scripts/viirs_rsr.py
+++ b/rsr_convert_scripts/viirs_rsr.py
@@ -196,7 +196,7 @@ def create_viirs_rsr(platform_name):
             wvl_is_constant = True
             for det in det_names[1:]:
                 det_wvl = np.unique(viirs.rsr[det]['wavelength'])
-                if not np.alltrue(wvl == det_wvl):
+                if not np.array_equal(wvl, det_wvl):
                     LOG.warning(
                         "Wavelngth arrays are not the same among detectors!")
                     wvl_is_constant = False
-- 
2.43.0


From af2573c43c84438f3646690f3943d41366eabd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:43 +0000
Subject: [PATCH 26/34] fix: converting the VIRR responses of platforms with
 several instruments

---
 rsr_convert_scripts/virr_rsr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsr_convert_scripts/virr_rsr.py b/rsr_convert_scripts/virr_rsr.py
index 4e7d7d6..d4341c4 100644
--- a/rsr_convert_scripts/virr_rsr.py
+++ b/rsr_convert_scripts/virr_rsr.py
@@ -29,6 +29,9 @@ class VirrRSR(InstrumentRSR):
         super(VirrRSR, self).__init__(bandname, platform_name, VIRR_BAND_NAMES[platform_name])
 
         self.instrument = INSTRUMENTS.get(platform_name, 'virr')
+        if isinstance(self.instrument, list):
+            self.instrument = 'virr'
+
         self._get_options_from_config()
         self._get_bandfilenames()
 
-- 
2.43.0


From af68de563504f2ce272e623f13a56183d7878937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:43 +0000
Subject: [PATCH 27/34] fix: column of bands 8 to 20 in the response data of
 MERSI-1 on FY-3B

---
 rsr_convert_scripts/mersi1_rsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsr_convert_scripts/mersi1_rsr.py b/rsr_convert_scripts/mersi1_rsr.py
index 03a5695..14eab9c 100644
--- a/rsr_convert_scripts/mersi1_rsr.py
+++ b/rsr_convert_scripts/mersi1_rsr.py
@@ -73,7 +73,7 @@ class Mersi1FY3ABRSR(InstrumentRSR):
             if self.bandname in fy3b_file1_bands_part1:
                 response = data[fy3b_file1_bands_part1.index(self.bandname) + 1]
             elif self.bandname in fy3b_file1_bands_part2:
-                response = data[fy3b_file1_bands_part2.index(self.bandname) + 4]
+                response = data[fy3b_file1_bands_part2.index(self.bandname) + 5]
             else:
                 response = data[fy3b_file2_bands.index(self.bandname) + 1]
 
-- 
2.43.0


From 69ddd5855c56925abd7ddf159bf70703918d88ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:43 +0000
Subject: [PATCH 28/34] fix: storing the band names of AHI

---
 rsr_convert_scripts/ahi_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsr_convert_scripts/ahi_reader.py b/rsr_convert_scripts/ahi_reader.py
index 73b4e11..7c05e27 100644
--- a/rsr_convert_scripts/ahi_reader.py
+++ b/rsr_convert_scripts/ahi_reader.py
@@ -97,7 +97,7 @@ def convert2hdf5(platform_name):
         h5f.attrs['description'] = 'Relative Spectral Responses for AHI'
         h5f.attrs['platform_name'] = platform_name
         h5f.attrs['sensor'] = 'ahi'
-        h5f.attrs['band_names'] = AHI_BAND_NAMES.values()
+        h5f.attrs['band_names'] = list(AHI_BAND_NAMES.values())
 
         for chname in AHI_BAND_NAMES.values():
 
-- 
2.43.0


From 1ea629545041d7511687c6465b880ebe413da1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:43 +0000
Subject: [PATCH 29/34] fix: fall back to the data directory for the AVHRR-1
 responses

---
 rsr_convert_scripts/avhrr1_rsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsr_convert_scripts/avhrr1_rsr.py b/rsr_convert_scripts/avhrr1_rsr.py
index a9a65fc..62e4ebb 100644
--- a/rsr_convert_scripts/avhrr1_rsr.py
+++ b/rsr_convert_scripts/avhrr1_rsr.py
@@ -48,7 +48,7 @@ class AvhrrRSR():
 
         self.avhrr_path = options['avhrr/1'].get('path')
         if not os.path.exists(self.avhrr_path):
-            self.avhrr1_path = os.path.join(
+            self.avhrr_path = os.path.join(
                 DATA_PATH, options['avhrr/1'].get('filename'))
 
         self.output_dir = options.get('rsr_dir', './')
-- 
2.43.0


From 0343b76561439b86e82681a2ecc3ccc191e5557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:43 +0000
Subject: [PATCH 30/34] fix: converted responses are stored under the file name
 they are looked up by

---
 pyspectral/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 253fcac..e7262c7 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -287,7 +287,7 @@ def convert2hdf5(ClassIn, platform_name, bandnames, scale=1e-06, detectors=None)
     import h5py
 
     instruments = [ClassIn(bandnames[i], platform_name) for i in range(len(bandnames))]
-    instr_name = instruments[0].instrument.replace("/", "")
+    instr_name = instruments[0].instrument.replace("/", "").replace("-", "")
     filename = os.path.join(instruments[0].output_dir,
                             "rsr_{0}_{1}.h5".format(instr_name,
                                                     platform_name))
-- 
2.43.0


From ebc86edf47130a221904d2fab79aba2acf016692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:07 +0000
Subject: [PATCH 31/34] fix: composite_rsr_plot repeated the previous
 platform's data for a platform without the requested instruments

---
 bin/composite_rsr_plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/composite_rsr_plot.py b/bin/composite_rsr_plot.py
index 859e9d4..32a1f5a 100644
--- a/bin/composite_rsr_plot.py
+++ b/bin/composite_rsr_plot.py
@@ -137,6 +137,7 @@ if __name__ == "__main__":
     something2plot = False
 
     for platform in platform_names:
+        rsr = None
         for sensor in sensors:
             if platform in INSTRUMENTS and sensor not in INSTRUMENTS.get(platform):
                 continue
-- 
2.43.0


From 38966cfe85ef1f3d3f09448393b40b823fe68da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:07 +0000
Subject: [PATCH 32/34] fix: plot_some_band failed as dictionary keys cannot be
 indexed

---
 plot_some_band.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plot_some_band.py b/plot_some_band.py
index e93f9a7..1b273e1 100644
--- a/plot_some_band.py
+++ b/plot_some_band.py
@@ -40,7 +40,7 @@ if __name__ == "__main__":
 
         detectors = rsr.rsr[band].keys()
         # for det in detectors:
-        det = detectors[0]
+        det = sorted(detectors)[0]
         resp = rsr.rsr[band][det]['response']
         wvl = rsr.rsr[band][det]['wavelength']
 
-- 
2.43.0


From 8b42d09fd5e38892638dba310afe14588eff0aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:07 +0000
Subject: [PATCH 33/34] fix: plot_rsr could not save the figure of an
 instrument with a slash in its name

---
 bin/plot_rsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/plot_rsr.py b/bin/plot_rsr.py
index 974aa52..fafdc43 100644
--- a/bin/plot_rsr.py
+++ b/bin/plot_rsr.py
@@ -65,4 +65,4 @@ if __name__ == "__main__":
             plt.xlim(xlimits[0], xlimits[1])
 
     plt.title(title)
-    plt.savefig('{}_{}_rsr_band{}.png'.format(platform, sensor, band))
+    plt.savefig('{}_{}_rsr_band{}.png'.format(platform, sensor.replace('/', ''), band))
-- 
2.43.0


From 804f85ff1e7cb24c6256bb501f6b3dcebf0799e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:15 +0000
Subject: [PATCH 34/34] fix: Rayleigh reflectance of dask arrays that are
 chunked differently

---
 pyspectral/rayleigh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyspectral/rayleigh.py b/pyspectral/rayleigh.py
index 11b6ee4..4a25608 100644
--- a/pyspectral/rayleigh.py
+++ b/pyspectral/rayleigh.py
@@ -210,6 +210,10 @@ class Rayleigh(RayleighConfigBaseClass):
         compute = da is not None and not isinstance(sun_zenith, da.Array)
 
         wvl, band_name = self._get_effective_wavelength_and_band_name(band_name_or_wavelength)
+        if da is not None and isinstance(sun_zenith, da.Array):
+            # The blocks of all arrays are combined one by one
+            sat_zenith, azidiff, redband = (arr.rechunk(sun_zenith.chunks) if isinstance(arr, da.Array) else arr
+                                            for arr in (sat_zenith, azidiff, redband))
         repr_arr = sun_zenith if redband is None else redband
         try:
             rayleigh_refl = _get_wavelength_adjusted_lut_rayleigh_reflectance(
-- 
2.43.0

