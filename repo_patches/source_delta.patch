From 05b257342195ed03814dd560cc961858d1f618fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:36 +0000
Subject: [PATCH 01/17] fix: decode QZSS ephemeris 1044, IODC field is 10 bits
 wide

The offset advanced by 8 bits after reading the 10-bit IODC field, so the
final length check (485 bits) failed and every message 1044 was rejected.
---
 sub_decoders/RTCM_EPH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_EPH.py b/sub_decoders/RTCM_EPH.py
index 359f788..f467677 100644
--- a/sub_decoders/RTCM_EPH.py
+++ b/sub_decoders/RTCM_EPH.py
@@ -617,7 +617,7 @@ class EphemerisDecoder(Bits):
         eph.URA, offset = self.getbitu(buf, offset, 4), offset + 4  # DF453
         eph.SVH, offset = self.getbitu(buf, offset, 6), offset + 6  # DF454
         eph.TGD, offset = self.getbits(buf, offset, 8), offset + 8  # DF455
-        eph.IODC, offset = self.getbitu(buf, offset, 10), offset + 8  # DF456
+        eph.IODC, offset = self.getbitu(buf, offset, 10), offset + 10  # DF456
         eph.Fit, offset = self.getbitu(buf, offset, 1), offset + 1  # DF457
 
         # expected offcet value is 485+24=509
-- 
2.43.0


From 2600163ca9ff9f85d3d2c4004063548f68a644e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:39 +0000
Subject: [PATCH 02/17] fix: accept MSM messages which carry no satellites

The length field of the frame counts payload bytes only, so subtracting 3 from
it made the minimal-length check reject an empty MSM (22 byte payload) which
the rest of the decoder supports explicitly.
---
 sub_decoders/RTCM_MSM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index 2992432..9b349eb 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -105,7 +105,7 @@ class BareObservablesMSM17Decoder(Bits):
         """Conv. binary header into integers"""
 
         # Check minimal length
-        bits_elapsed = (self.getbitu(buf, 14, 10) - 3) * 8
+        bits_elapsed = self.getbitu(buf, 14, 10) * 8
         if bits_elapsed < self.__MIN_HDR_LEN:
             raise ExceptionBareDataStructure(f"MSM hdr1 :{bits_elapsed=}")
 
-- 
2.43.0


From 99e2775104dbe61ed7c12792d8e15931ff66595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:44 +0000
Subject: [PATCH 03/17] fix: MSM3 invalid range of one signal no longer drops
 phases of others

'ph_ok' was cleared by a signal without a valid fine range and stayed cleared
for all following signals of the same satellite.
---
 sub_decoders/RTCM_MSM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index 9b349eb..dad4850 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -606,7 +606,6 @@ class Bare2Scaled:
 
             rng = float(src.sat.rng_rough[sat_idx]) / 1024.0
             rng_ok = src.atr.is_msm1 or src.atr.is_msm3
-            ph_ok = src.atr.is_msm2 or src.atr.is_msm3
 
             # Pass through signals of satellite 'sat'
             i = 0
@@ -621,6 +620,8 @@ class Bare2Scaled:
                 if slotExist == 0:
                     continue
 
+                ph_ok = src.atr.is_msm2 or src.atr.is_msm3
+
                 # Make fine code range
                 if rng_ok:
                     if (src.sgn.rng_fine[sgn_idx] & 0x7FFF) != 0x4000:
-- 
2.43.0


From 0908beb7c7b02af37ef60472d5332b024dc5ec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:48 +0000
Subject: [PATCH 04/17] fix: print NavIC L5/S health flags of message 1041

The fields had no type annotation, so they were plain class attributes and
were silently missing in JSON output, comparison and copying.
---
 gnss_types/ephemeris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gnss_types/ephemeris.py b/gnss_types/ephemeris.py
index 9f69e79..9a6facc 100644
--- a/gnss_types/ephemeris.py
+++ b/gnss_types/ephemeris.py
@@ -134,8 +134,8 @@ class EphNAVIC(DataClassMethods, Keplerians, ClockBias, EphHdr):
     URA: int | float = 0
     TGD: int | float = 0
     IODEC: int = 0
-    L5_Flag = 0
-    S_Flag = 0
+    L5_Flag: int = 0
+    S_Flag: int = 0
 
 
 @dataclass
-- 
2.43.0


From 832b69f28f66746fa62c88a7f5f68140147696be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:52 +0000
Subject: [PATCH 05/17] fix: scale messages 1007/1008/1029/1033 with empty
 strings

''.split(' ') is [''] and int('', 16) raises ValueError, so any message with a
zero-length string was lost in all scaled modes.
---
 sub_decoders/RTCM_BASE.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index 571db59..369baab 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -195,27 +195,27 @@ class BaseStationDataDecoder(Bits):
         """Scale MSG 1007/1008/1033 data"""
 
         bs = ibs.deepcopy()
-        symbols = ibs.descr.split(" ")
+        symbols = ibs.descr.split()
         bs.descr = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         if not isinstance(bs, (BaseADSN, BaseADSNRC)):
             # bs.msgNum == 1007:
             return bs
 
-        symbols = bs.serialNumber.split(" ")
+        symbols = bs.serialNumber.split()
         bs.serialNumber = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         if not isinstance(bs, (BaseADSNRC)):
             # bs.msgNum == 1008:
             return bs
 
-        symbols = bs.rcvDescriptor.split(" ")
+        symbols = bs.rcvDescriptor.split()
         bs.rcvDescriptor = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
-        symbols = bs.rcvFWVersion.split(" ")
+        symbols = bs.rcvFWVersion.split()
         bs.rcvFWVersion = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
-        symbols = bs.rcvSerNum.split(" ")
+        symbols = bs.rcvSerNum.split()
         bs.rcvSerNum = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         return bs
@@ -291,7 +291,7 @@ class BaseStationDataDecoder(Bits):
         """Scale MSG 1029 data"""
 
         bs = ibs.deepcopy()
-        symbols = ibs.message.split(" ")
+        symbols = ibs.message.split()
         bs.message = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         return bs
-- 
2.43.0


From 80fb33a74dcd32be26ff7cf10506199be7ccede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:55 +0000
Subject: [PATCH 06/17] fix: derive the number of 1013 announcements from the
 payload length

With Nm == 0 the count was computed from the whole frame, including 6 bytes of
framing, so decoding always overshot and the message was rejected.
---
 sub_decoders/RTCM_BASE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index 369baab..4940285 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -238,7 +238,7 @@ class BaseStationDataDecoder(Bits):
         if bs.Nm != 0:
             Nm = bs.Nm
         else:
-            Nm = math.floor((8 * len(buf) - 70) / 29)
+            Nm = math.floor((8 * (len(buf) - 6) - 70) / 29)
 
         for _ in range(Nm):
             ID, offset = self.getbitu(buf, offset, 12), offset + 12  # DF055
-- 
2.43.0


From c9b8669c38af8632ff07e5edde4d21ae2943ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:58 +0000
Subject: [PATCH 07/17] fix: resolution of GLONASS code-phase biases (1230) is
 0.02 m

DF423..DF426 have a resolution of 0.02 m.
---
 sub_decoders/RTCM_BASE.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index 4940285..ebfeee5 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -365,10 +365,10 @@ class BaseStationDataDecoder(Bits):
         bs.validity["1P"] = bs.validity["1P"] == 1  # DF422
         bs.validity["2C"] = bs.validity["2C"] == 1  # DF422
         bs.validity["2P"] = bs.validity["2P"] == 1  # DF422
-        bs.correction["1C"] *= 0.2  # DF423 [m]
-        bs.correction["1P"] *= 0.2  # DF424 [m]
-        bs.correction["2C"] *= 0.2  # DF425 [m]
-        bs.correction["2P"] *= 0.2  # DF426 [m]
+        bs.correction["1C"] *= 0.02  # DF423 [m]
+        bs.correction["1P"] *= 0.02  # DF424 [m]
+        bs.correction["2C"] *= 0.02  # DF425 [m]
+        bs.correction["2P"] *= 0.02  # DF426 [m]
 
         return bs
 
-- 
2.43.0


From eab078094f6bb89a37f7640aecde86bea63e94a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:02 +0000
Subject: [PATCH 08/17] fix: final verdict takes parsing errors into account

printing_errors was tested twice and parsing_errors never.
---
 run_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_conversion.py b/run_conversion.py
index d045c4c..c18f3ca 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -337,7 +337,7 @@ def main(local_args: str | None = None) -> None:
         if decode_rtcm_file(fpath, converter):
             err = converter.get_statistics()
             if (
-                err.printing_errors
+                err.parsing_errors
                 or err.decoding_errors
                 or err.printing_errors
             ):
-- 
2.43.0


From 65c35a56c42e5825b0ac2ad92fc709e68d7292c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:05 +0000
Subject: [PATCH 09/17] fix: relative comparison of negative floats

fabs() was applied to the result of the comparison, so negative references
were compared with an absolute tolerance instead of a relative one.
---
 gnss_types/data_class_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gnss_types/data_class_methods.py b/gnss_types/data_class_methods.py
index b4b53ca..a7c2c99 100644
--- a/gnss_types/data_class_methods.py
+++ b/gnss_types/data_class_methods.py
@@ -70,7 +70,7 @@ class DataClassMethods:
             if math.isnan(A) or math.isnan(B):
                 return False
 
-            if math.fabs(B > f_tolerance):
+            if math.fabs(B) > f_tolerance:
                 diff = math.fabs((B - A) / B)
             else:
                 diff = math.fabs(B - A)
-- 
2.43.0


From 5ccddba244689adaefdaededddbd67343f8c73c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:09 +0000
Subject: [PATCH 10/17] fix: count MARGO file-creation failures as printing
 errors

The result of __append() was ignored, so observables were lost while the
conversion was reported as finished without errors.
---
 printers/margo_printer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/printers/margo_printer.py b/printers/margo_printer.py
index 2b6ab63..95d4b4f 100644
--- a/printers/margo_printer.py
+++ b/printers/margo_printer.py
@@ -445,6 +445,7 @@ class PrintMARGO:
         if not pbuf:
             return
 
+        failed: list[str] = []
         for f, observables in pbuf.items():
             ptype = f[1]  # C, L, D, S,...
             # Make textual representation of values
@@ -452,7 +453,11 @@ class PrintMARGO:
             obs_string = self.core.format_obs_string(
                 observables, *column_format
             )
-            self.__append(f, obs_string)
+            if not self.__append(f, obs_string):
+                failed.append(f)
+
+        # Let the top printer count the failure
+        assert not failed, f"Failed to print {failed}"
 
     # def __print_BareObservablesMSM4567(self, obs: BareObservablesMSM4567):
     #     pass
-- 
2.43.0


From 363329afb6868d09416ea3dbdf9be09dc45f7ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:50 +0000
Subject: [PATCH 11/17] fix: signal data of MSM2/MSM3 cells is 27/42 bits wide

---
 sub_decoders/RTCM_MSM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index dad4850..dbb5e01 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -273,10 +273,10 @@ class BareObservablesMSM17Decoder(Bits):
             est_len = ((offset + 10 * Nsat + 15 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_1)
         elif self.bd.atr.is_msm2:
-            est_len = ((offset + 10 * Nsat + 28 * Ncell + 7) >> 3) + 3
+            est_len = ((offset + 10 * Nsat + 27 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_2)
         elif self.bd.atr.is_msm3:
-            est_len = ((offset + 10 * Nsat + 43 * Ncell + 7) >> 3) + 3
+            est_len = ((offset + 10 * Nsat + 42 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_3)
         else:
             bw = (b for b in self.__BIT_WIDTH_3)
-- 
2.43.0


From 749851dbfa6e9891d8f6b2580bdf23fffd504e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:28 +0000
Subject: [PATCH 12/17] fix: apply the given tolerance to nested data objects
 in compare()

---
 gnss_types/data_class_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gnss_types/data_class_methods.py b/gnss_types/data_class_methods.py
index a7c2c99..cd55118 100644
--- a/gnss_types/data_class_methods.py
+++ b/gnss_types/data_class_methods.py
@@ -114,7 +114,7 @@ class DataClassMethods:
 
             if is_dataclass(value):
                 if isinstance(value, DataClassMethods):
-                    eq = value.compare(ref)
+                    eq = value.compare(ref, f_tolerance)
                 else:
                     eq = False
             else:
-- 
2.43.0


From 190da188d633c03dfe42891a2576ddf216f46147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:28 +0000
Subject: [PATCH 13/17] fix: list source files in folders whose name contains
 wildcard characters

---
 run_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_conversion.py b/run_conversion.py
index c18f3ca..ea40085 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -253,7 +253,7 @@ def make_list_of_source_files(
     else:
         fpattern = ".".join(["*", rtcm_ext])
         path = os.path.abspath(f_arguments[0])
-        pattern = os.path.join(path, fpattern)
+        pattern = os.path.join(glob.escape(path), fpattern)
         # Find files matching pattern
         file_list = glob.glob(pattern)
         if 0 == len(file_list):
-- 
2.43.0


From a7602852655d846e6a0664063e13b052fa979239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:30 +0000
Subject: [PATCH 14/17] fix: objects lacking a compared field are unequal
 instead of raising

---
 gnss_types/data_class_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gnss_types/data_class_methods.py b/gnss_types/data_class_methods.py
index cd55118..ea3ee74 100644
--- a/gnss_types/data_class_methods.py
+++ b/gnss_types/data_class_methods.py
@@ -109,7 +109,7 @@ class DataClassMethods:
         for key, value in self.items():
             try:
                 ref = getattr(refs, key)
-            except IndexError:
+            except AttributeError:
                 return False
 
             if is_dataclass(value):
-- 
2.43.0


From 0cc511b21f96b4d01b62bcc6137296196d16d8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:19 +0000
Subject: [PATCH 15/17] fix: the last spelling of a GLONASS literal wins
 independent of hash order

---
 controls.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controls.py b/controls.py
index 14948d3..b16f957 100644
--- a/controls.py
+++ b/controls.py
@@ -67,10 +67,11 @@ class ConverterControls:
         lt = {}
         mask: int = 0
 
-        keys = set(self.__ini["LITERALS"])
+        # Keep the order: the last spelling of a satellite wins
+        keys = list(self.__ini["LITERALS"])
         # 'keys' collects garbage from 'DEFAULT'
         if "DEFAULT" in self.__ini.sections():
-            keys = keys - set(self.__ini["DEFAULT"])
+            keys = [k for k in keys if k not in self.__ini["DEFAULT"]]
 
         for key in keys:
             sat = int(key.strip("rR"))
-- 
2.43.0


From 25bd3e19ae92af05e6172143d5e3f36a0adb5b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:32 +0000
Subject: [PATCH 16/17] fix: do not offer folders named like RTCM files as
 sources

---
 run_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_conversion.py b/run_conversion.py
index ea40085..6b472ab 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -255,7 +255,7 @@ def make_list_of_source_files(
         path = os.path.abspath(f_arguments[0])
         pattern = os.path.join(glob.escape(path), fpattern)
         # Find files matching pattern
-        file_list = glob.glob(pattern)
+        file_list = [f for f in glob.glob(pattern) if os.path.isfile(f)]
         if 0 == len(file_list):
             print(f"There are no files matching {fpattern} in {path}.")
         else:
-- 
2.43.0


From cd3122dee86ae66966a4026eecd3a0053a5cdbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:10 +0000
Subject: [PATCH 17/17] fix: skip keys of [LITERALS] which are no channel
 numbers instead of failing

---
 controls.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/controls.py b/controls.py
index b16f957..bba156a 100644
--- a/controls.py
+++ b/controls.py
@@ -74,7 +74,9 @@ class ConverterControls:
             keys = [k for k in keys if k not in self.__ini["DEFAULT"]]
 
         for key in keys:
-            sat = int(key.strip("rR"))
+            name = key.strip("rR")
+            # Other keys are not channel numbers, skip them
+            sat = int(name) if name.isdecimal() else 0
             if 0 < sat <= 24:
                 mask |= 1 << (sat - 1)
                 lt.update({sat: self.__ini["LITERALS"].getint(key)})
-- 
2.43.0

