From 82b17dd11b5dec51f5d5daa66f26a3fe559d84ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:25 +0000
Subject: [PATCH 01/92] fix: invert arrays of small or integer spectral values
 exactly

safe_inverse_array treated every value below 1e-8 as zero, so arrays of
wavelengths under 10 nm converted to infinite frequency/energy while the same
scalars converted correctly, and integer arrays were inverted in integer
arithmetic.
---
 src/dispersion/spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index e4aab07..91f6542 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -23,9 +23,9 @@ def safe_inverse_array(values):
     takes the inverse of an array while converting values of 0 to inf
     and values of inf to 0
     '''
-    inverse = np.array(values)
-    zero_ind = np.isclose(values,0.0)
-    inf_ind = np.isclose(values,np.inf)
+    inverse = np.array(values, dtype=np.result_type(values, np.double))
+    zero_ind = values == 0.0
+    inf_ind = values == np.inf
     safe_inv_ind = ~ (zero_ind | inf_ind)
     inverse[zero_ind] = np.inf
     inverse[inf_ind] = 0.0
-- 
2.43.0


From 0b0e65d1f9d32c15bdd1352e1f3cbb4736ccff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:25 +0000
Subject: [PATCH 02/92] fix: conversion to wavenumber was off by a factor of
 1e4

wavelengths in metre must be multiplied by 1e2 to obtain centimetre.
---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 91f6542..7cbdd86 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -142,7 +142,7 @@ def to_wavenumber(unit, values):
     if not unit == '1/cm':
         raise NotImplementedError("support for wavenumber units" +
                                   " other than 1/cm not implemented")
-    inverse = safe_inverse(values*1e-2)
+    inverse = safe_inverse(values*1e2)
     return 2*np.pi*inverse
 
 class Spectrum(object):
-- 
2.43.0


From a45c4d51eafdae00bf7dac9a5e775ae867e6c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:25 +0000
Subject: [PATCH 03/92] fix: wavelengths converted to cm were rounded to 100 nm

use the same absolute precision (1e-15 m) as for micrometer.
---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 7cbdd86..ce27029 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -104,7 +104,7 @@ def to_wavelength(unit, values):
     if unit == 'm':
         converted_values = values
     elif unit == 'cm':
-        converted_values = np.round(values*1e2, decimals=5)
+        converted_values = np.round(values*1e2, decimals=13)
     elif unit == 'nm':
         converted_values = np.round(values*1e9, decimals=12)
     elif unit == 'um':
-- 
2.43.0


From 46d559c0d7cb3e36675db33240ede57cde986ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:25 +0000
Subject: [PATCH 04/92] fix: accept unit names in any letter case when
 converting a Spectrum

the constructor accepts e.g. 'eV', so data declared in eV could be created but
never evaluated.
---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index ce27029..b1908f8 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -302,7 +302,7 @@ class Spectrum(object):
         if spectrum_type not in Spectrum.SPECTRUM_TYPES:
             raise ValueError("invalid spectrum type {}".format(spectrum_type))
 
-        unit = Spectrum.standardise_unit(spectrum_type, unit)
+        unit = Spectrum.standardise_unit(spectrum_type, unit.lower())
         values = self.standard_rep
 
         convert_methods = {'frequency': to_frequency,
-- 
2.43.0


From 50dd91513fa407d27ab6ad81527a97d1bb67b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:25 +0000
Subject: [PATCH 05/92] fix: out of range error for data in cm raised KeyError

cm had no display name.
---
 src/dispersion/spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index b1908f8..b94535c 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -168,6 +168,7 @@ class Spectrum(object):
                   'a': {'a', 'angstrom'}}
 
     DISPLAY_NAMES = {'m': 'm',
+                     'cm': 'cm',
                      'um': u'μm',
                      'nm': 'nm',
                      'hz': 'Hz',
-- 
2.43.0


From 524121c140da009acc780054365ac39c5b86c77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:25 +0000
Subject: [PATCH 06/92] fix: data could often not be evaluated at the ends of
 their own range

converting frequencies, angular frequencies and wavenumbers to wavelength and
back is subject to rounding errors, and energies are rounded to 1e-9 eV, so
that the end points of the valid range compared as out of range.
---
 src/dispersion/spectral_data.py |  3 +++
 src/dispersion/spectrum.py      | 11 +++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 481039f..67fd198 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -220,6 +220,9 @@ class Interpolation(SpectralData):
 
         self.valid_range.contains(spectrum)
         values = spectrum.convert_to(self.spectrum_type, self.unit)
+        # end points may be off by rounding errors from unit conversion
+        values = np.clip(values, np.min(self.data[:, 0]),
+                         np.max(self.data[:, 0]))
         return self.interpolation(values)
 
     def dict_repr(self):
diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index b94535c..28b236b 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -226,12 +226,15 @@ class Spectrum(object):
         other_values = other.convert_to(self.spectrum_type, self.unit)
         other_min = np.min(other_values)
         other_max = np.max(other_values)
-        self_min = np.min(self.values)
-        self_max = np.max(self.values)
+        # same conversion (and therefore rounding) as for the other values
+        self_values = self.convert_to(self.spectrum_type, self.unit)
+        self_min = np.min(self_values)
+        self_max = np.max(self_values)
+        tol = 1e-12  # rounding errors from converting between spectrum types
         out_of_range = None
-        if other_min < self_min:
+        if other_min < self_min*(1. - tol):
             out_of_range = other_min
-        elif other_max > self_max:
+        elif other_max > self_max*(1. + tol):
             out_of_range = other_max
         if out_of_range is not None:
             dsu = self.display_string(self.unit)  # display string unit
-- 
2.43.0


From 537adadc383a6c825083af23e320fa9807387f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:40 +0000
Subject: [PATCH 07/92] fix: extrapolation changed the caller's spectrum and
 truncated integer ranges

the target spectrum was converted in place, and for a valid range of integers
the target was cut to an integer. Also do not rely on the order of the valid
range.
---
 src/dispersion/spectral_data.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 67fd198..c3ecb45 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -139,13 +139,12 @@ class Extrapolation(SpectralData):
         that gives the lower and upper bound for an extrapolation
         """
         base_spectrum = self.base_spectral_data.valid_range
-        extended_spectrum.convert_to(spectrum_type= base_spectrum.spectrum_type,
-                                     unit= base_spectrum.unit,
-                                     in_place= True)
-        new_range = np.array(base_spectrum.values)
-        if isinstance(extended_spectrum.values, (list, tuple, np.ndarray)):
+        extrap_values = extended_spectrum.convert_to(
+            spectrum_type= base_spectrum.spectrum_type,
+            unit= base_spectrum.unit)
+        new_range = np.sort(np.array(base_spectrum.values, dtype=np.double))
+        if isinstance(extrap_values, (list, tuple, np.ndarray)):
             # extrapolation both upper and lower
-            extrap_values = extended_spectrum.values
             if extrap_values.size > 2:
                 raise ValueError("extrapolation spectrum may contain at most" +
                                  "2 values not {}".format(extrap_values.size))
@@ -153,7 +152,7 @@ class Extrapolation(SpectralData):
                 new_range = self.validate_extrap_val(extrap_val, new_range)
         else:
             # upper or lower
-            extrap_val = extended_spectrum.values
+            extrap_val = extrap_values
             new_range = self.validate_extrap_val(extrap_val, new_range)
 
         return Spectrum(new_range,
-- 
2.43.0


From f0edab3e67563f18add8ed8413256619059a1a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:40 +0000
Subject: [PATCH 08/92] fix: evaluating extrapolated data changed the caller's
 spectrum and base values

the spectrum was converted in place, and a request reaching beyond the base
range replaced the base data by their spline approximation for all values.
---
 src/dispersion/spectral_data.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index c3ecb45..747b563 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -190,9 +190,21 @@ class Extrapolation(SpectralData):
             self.base_spectral_data.valid_range.contains(spectrum)
             return self.base_spectral_data.evaluate(spectrum)
         except ValueError as e:
-            spectrum.convert_to(self.spectrum_type, self.unit, in_place=True)
             self.valid_range.contains(spectrum)
-            return splev(spectrum.values,self.extrapolation)
+            values = np.asarray(spectrum.convert_to(self.spectrum_type,
+                                                    self.unit))
+            evaluation = np.array(splev(values, self.extrapolation))
+            # the base data remain valid inside of their range
+            base_range = self.base_spectral_data.valid_range.values
+            inside = ((values >= np.min(base_range)) &
+                      (values <= np.max(base_range)))
+            if np.any(inside):
+                inside_spectrum = Spectrum(values[inside],
+                                           spectrum_type=self.spectrum_type,
+                                           unit=self.unit)
+                evaluation[inside] = self.base_spectral_data.evaluate(
+                    inside_spectrum)
+            return evaluation
 
 
 class Interpolation(SpectralData):
-- 
2.43.0


From a0fd252589109ff90f20b489211bb6cb8ad95466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:40 +0000
Subject: [PATCH 09/92] fix: Retro model (formula 8) did not solve
 (n^2-1)/(n^2+2) = rhs

---
 src/dispersion/spectral_data.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 747b563..f6a6417 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -545,10 +545,8 @@ class Retro(Model):
         rhs += self.model_parameters[1]*wvlsq/(wvlsq-self.model_parameters[2])
         rhs += self.model_parameters[3]*wvlsq
 
-        tmp_p = -2*rhs/(1-rhs)
-        tmp_q = -1/(1-rhs)
-
-        ref_index = -0.5*tmp_p + np.sqrt(np.power(0.5*tmp_p, 2) - tmp_q)
+        # (n^2-1)/(n^2+2) = rhs
+        ref_index = np.sqrt((1+2*rhs)/(1-rhs))
         return ref_index
 
 class Exotic(Model):
-- 
2.43.0


From 1a40f7a2b2ce409f58e0afbd330c711df7df5a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:40 +0000
Subject: [PATCH 10/92] fix: Exotic model (formula 9) had an additional factor
 of wavelength squared

n^2 = C1 + C2/(w^2-C3) + C4*(w-C5)/((w-C5)^2+C6)
---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index f6a6417..1e2c634 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -571,7 +571,7 @@ class Exotic(Model):
         rhs = self.model_parameters[0]*ones
         wvlsq = np.power(wavelengths, 2)
 
-        rhs += self.model_parameters[1]*wvlsq/(wvlsq - self.model_parameters[2])
+        rhs += self.model_parameters[1]/(wvlsq - self.model_parameters[2])
         rhs += (self.model_parameters[3]*(wavelengths -self.model_parameters[4])/
                 (np.power(wavelengths - self.model_parameters[4], 2) +
                  self.model_parameters[5]))
-- 
2.43.0


From e9005b239ee35a67f61a1609dc712420f66b127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:40 +0000
Subject: [PATCH 11/92] fix: Tauc-Lorentz model could not be evaluated for a
 scalar spectrum

---
 src/dispersion/spectral_data.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 1e2c634..6a00796 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -655,12 +655,10 @@ class TaucLorentz(Model):
         return eps
 
     def _calc_eps_imag(self, ones, energies, A, E0, C, Eg):
-        eps_imag = ones
-        E = energies[energies>=Eg]
-        eps_imag[energies>=Eg] = ( (1./E) *A*E0*C*(E-Eg)**2 /
-                                   ((E**2-E0**2)**2+C**2*E**2))
-        eps_imag[energies<Eg] = 0.0
-        return eps_imag
+        E = energies
+        eps_imag = ones * ( (1./E) *A*E0*C*(E-Eg)**2 /
+                            ((E**2-E0**2)**2+C**2*E**2))
+        return np.where(E >= Eg, eps_imag, 0.0)[()]
 
     def _calc_eps_real(self, energies, A, E0, C, Eg, eps_inf):
         E = energies
-- 
2.43.0


From 2e84f586f8dc9c5f957c8e742529c92f8d997143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:40 +0000
Subject: [PATCH 12/92] fix: Tauc-Lorentz model returned nan at the band gap
 energy

---
 src/dispersion/spectral_data.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 6a00796..11d4067 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -48,6 +48,7 @@ for more information on models see https://refractiveindex.info/about
 import re
 import numpy as np
 from scipy.interpolate import interp1d, splrep, splev
+from scipy.special import xlogy
 from dispersion.spectrum import Spectrum
 from dispersion.io import _numeric_to_string_table
 
@@ -688,12 +689,14 @@ class TaucLorentz(Model):
                     np.arctan2(alpha-2*Eg,C))
         part3 = part3_1 * part3_2 * part3_3
 
-        part4 = ((-A*E0*C/(np.pi*zeta4))*
-                 ((E**2+Eg**2)/E) *
-                 np.log( np.abs(E-Eg)/(E+Eg)))
+        # the logarithms of |E-Eg| from both parts are combined since they
+        # cancel for E -> Eg
+        part4 = ((A*E0*C/(np.pi*zeta4*E))*
+                 ((E**2+Eg**2)*np.log(E+Eg) -
+                  xlogy((E-Eg)**2, np.abs(E-Eg))))
 
         part5 = ((2.*A*E0*C*Eg/(np.pi*zeta4)) *
-                 np.log( (np.abs(E-Eg)*(E+Eg))/
+                 np.log( (E+Eg)/
                          np.sqrt((E0**2-Eg**2)**2+Eg**2*C**2)))
 
         eps_real = eps_inf + part1 + part2 + part3 + part4 +part5
-- 
2.43.0


From 0907c9a11dd3d07c4946c5050d7aa6199c538416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:17 +0000
Subject: [PATCH 13/92] fix: Tauc-Lorentz model returned nan for broad poles (C
 > sqrt(2)*E0)

only the square of gamma enters the formula, which is valid for C < 2*E0.
---
 src/dispersion/spectral_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 11d4067..8031eeb 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -668,8 +668,8 @@ class TaucLorentz(Model):
                     E0**2*(E0**2+3*Eg**2))
         alpha_atan = (E**2-E0**2)*(E0**2+Eg**2) + Eg**2*C**2
         alpha = np.sqrt(4*E0**2-C**2)
-        gamma = np.sqrt(E0**2 -0.5*C**2)
-        zeta4 = (E**2-gamma**2)**2 + 0.25*alpha**2*C**2
+        gamma_sq = E0**2 -0.5*C**2
+        zeta4 = (E**2-gamma_sq)**2 + 0.25*alpha**2*C**2
 
         part1 = (0.5*(A*C*alpha_ln/(np.pi*zeta4*alpha*E0)) *
                  np.log( (E0**2+Eg**2+alpha*Eg)/(E0**2+Eg**2-alpha*Eg)))
@@ -684,7 +684,7 @@ class TaucLorentz(Model):
         #           (np.pi+2*np.arctan2((gamma**2-Eg**2),(alpha*C)))))
 
         part3_1 = (4.*A*E0/(np.pi*zeta4*alpha))
-        part3_2 = Eg*(E**2-gamma**2)
+        part3_2 = Eg*(E**2-gamma_sq)
         part3_3 = ( np.arctan2(alpha+2*Eg,C) +
                     np.arctan2(alpha-2*Eg,C))
         part3 = part3_1 * part3_2 * part3_3
-- 
2.43.0


From d7ecb5c96df55ba0a6011f324eed2a935e015a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:17 +0000
Subject: [PATCH 14/92] fix: tables with more than 1000 entries were written
 with their rows missing

numpy abbreviates large arrays with '...' when converting to string. Also write
all digits, do not wrap lines and accept lists (e.g. of model parameters).
---
 src/dispersion/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index f9017bc..0a66342 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -62,7 +62,10 @@ def _numeric_to_string_table(table):
     """
     returns a string representation of a numpy array
     """
-    string_array = np.array2string(table)
+    string_array = np.array2string(np.asarray(table),
+                                   max_line_width=sys.maxsize,
+                                   threshold=sys.maxsize,
+                                   floatmode='unique')
     no_brackets = re.sub(r'[\[\]]', '', string_array)
     no_indent = re.sub(r'\n ', r"\n", no_brackets)
     no_indent = no_indent.rstrip().lstrip()
-- 
2.43.0


From 364b0e160bf34127ba1393d3bc44be2b2d3ae40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:47 +0000
Subject: [PATCH 15/92] fix: text files lost small numbers, and .nk files could
 not be written

tables were written with 8 decimals, which made e.g. wavelengths in metre or
small absorption indistinguishable. Writing .nk files failed for lack of a
delimiter and would have used a comment character which .nk files do not allow.
---
 src/dispersion/io.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 0a66342..e88ad78 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -217,7 +217,7 @@ def print_yaml_string(dict_like):
     else:
         print(yaml.dump(dict_like))
 
-def prepend_text_to_file(file_path, text, extra_line=False):
+def prepend_text_to_file(file_path, text, extra_line=False, comment_char="#"):
     """
     read information from a file and rewrite with text prepended
     """
@@ -226,8 +226,8 @@ def prepend_text_to_file(file_path, text, extra_line=False):
 
     with open(file_path, 'w', encoding='utf8') as fpt:
         text = text.rstrip('\n\r')
-        text = text.replace("\n", "\n#")
-        text = "#" + text
+        text = text.replace("\n", "\n" + comment_char)
+        text = comment_char + text
         text += "\n"
         if extra_line:
             text += "\n"
@@ -610,7 +610,8 @@ class Writer():
         if self.extension in txt_types:
             self._write_text_file()
             if not meta_comment == "":
-                prepend_text_to_file(self.file_path, meta_comment)
+                prepend_text_to_file(self.file_path, meta_comment,
+                                     comment_char=self._comment_char())
         elif self.extension == '.yml':
             self._write_yaml_file()
             if not meta_comment == "":
@@ -622,6 +623,10 @@ class Writer():
                              ", supported extensions are (.yml|.csv|.txt)")
 
 
+    def _comment_char(self):
+        """character which starts a comment line in this file type"""
+        return ";" if self.extension == '.nk' else "#"
+
     def _write_text_file(self):
         """
         writer for .txt, .csv and .nk files
@@ -653,16 +658,17 @@ class Writer():
         #                               "supported for tabulated_nk and"+
         #                               "tabulted_n data.")
 
-        if self.extension == '.txt':
-            delimiter = "\t"
-        elif self.extension == '.csv':
+        delimiter = "\t"
+        if self.extension == '.csv':
             delimiter = ","
         data = multi_key(data_dict, {'data', 'Data'})
         data = _str_table_to_numeric(data)
         np.savetxt(self.file_path, data,
                    delimiter=delimiter,
                    header=header,
-                   fmt="%.8f")
+                   fmt="%s",
+                   comments=self._comment_char() + " ",
+                   encoding='utf-8')
 
 
     def _write_yaml_file(self):
-- 
2.43.0


From 2c472413ceb3a96bb1a6c28fa89715ab3eafea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:47 +0000
Subject: [PATCH 16/92] fix: writing a material to a text file silently dropped
 its second data set

e.g. the imaginary part if it is tabulated on other points than the real part.
---
 src/dispersion/io.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index e88ad78..88fd69d 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -644,7 +644,14 @@ class Writer():
         #         header += "{}: {}\n".format(item[1], self.file_dict[item[0]])
         if len(self.file_dict['Datasets']) < 1:
             raise ValueError("no datasets present in the file dict")
-        data_dict = self.file_dict["Datasets"][0]
+        # text files hold one table, constant data sets cannot be written
+        data_dicts = [data_dict for data_dict in self.file_dict['Datasets']
+                      if "constant" not in data_dict['DataType']]
+        if (len(data_dicts) != 1 or
+                not data_dicts[0]['DataType'].startswith('tabulated')):
+            raise ValueError("text files may only contain a single set of " +
+                             "tabulated data, use a .yml file instead")
+        data_dict = data_dicts[0]
 
         spec_type = multi_key(data_dict, {'spectrum_type', 'SpectrumType'})
         header += "SPECTRUMTYPE: {}\n".format(spec_type)
-- 
2.43.0


From 6b51e9fc59bf07bfd6d6267f2f9739234fcdec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:47 +0000
Subject: [PATCH 17/92] fix: text files with a single row of data could not be
 read

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 88fd69d..aa96628 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -350,7 +350,7 @@ class Reader():
         except IOError as exc:
             raise exc
         data_dict = self._create_default_data_dict()
-        data_dict['Data'] = data
+        data_dict['Data'] = np.atleast_2d(data)
         return data_dict
 
     def _read_text_comment(self):
-- 
2.43.0


From dabf41f124dce6377b49e37f97051cad1405cc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:47 +0000
Subject: [PATCH 18/92] fix: materials with complex data (e.g. Drude model)
 could not be written

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 7cfe8ed..3d50fe5 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -856,7 +856,7 @@ class Material():
         if self.data['complex'] is None:
             data_parts = ['real', 'imag']
         else:
-            data_parts = 'complex'
+            data_parts = ['complex']
 
 
         for data_part in data_parts:
-- 
2.43.0


From e649e83f97b3cd336e8723fadeefa8a463b3d264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:19 +0000
Subject: [PATCH 19/92] fix: materials with tables of different length for n
 and k could not be written

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 3d50fe5..0621a74 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -885,7 +885,7 @@ class Material():
             return datasets
 
         collapse = True
-        if not np.all(n_data[:, 0] == k_data[:, 0]):
+        if not np.array_equal(n_data[:, 0], k_data[:, 0]):
             collapse = False
 
         if datasets[0]['Unit'] != datasets[1]['Unit']:
-- 
2.43.0


From 811c9aefc6c19595bf9f20b6e2bc13a8156a1deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:19 +0000
Subject: [PATCH 20/92] fix: tabulated permittivity was written to file in a
 form which cannot be read

write the documented 'tabulated eps' data set, and read the data types which
are written for the real and imaginary part alone.
---
 src/dispersion/material.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 0621a74..fc56100 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -489,6 +489,12 @@ class Material():
             self.data['name'] = 'eps'
             self.data['real'] = self._spec_data_from_table(table[:, [0, 1]])
             self.data['imag'] = self._spec_data_from_table(table[:, [0, 2]])
+        elif identifier == 'eps_r':
+            self.data['name'] = 'eps'
+            self.data['real'] = self._spec_data_from_table(table)
+        elif identifier == 'eps_k':
+            self.data['name'] = 'eps'
+            self.data['imag'] = self._spec_data_from_table(table)
 
 
     def _spec_data_from_table(self, data):
@@ -874,10 +880,10 @@ class Material():
     def collapse_datasets(self, datasets):
         n_collapsable = 0
         for dataset in datasets:
-            if dataset['DataType'] == 'tabulated n':
+            if dataset['DataType'] in {'tabulated n', 'tabulated eps_r'}:
                 n_data = _str_table_to_numeric(dataset['Data'])
                 n_collapsable += 1
-            if dataset['DataType'] == 'tabulated k':
+            if dataset['DataType'] in {'tabulated k', 'tabulated eps_k'}:
                 k_data = _str_table_to_numeric(dataset['Data'])
                 n_collapsable += 1
 
@@ -900,7 +906,7 @@ class Material():
         new_dataset = {}
         new_dataset['Unit'] = datasets[0]['Unit']
         new_dataset['SpectrumType'] = datasets[0]['SpectrumType']
-        new_dataset['DataType'] = 'tabulated nk'
+        new_dataset['DataType'] = 'tabulated ' + self.data['name']
         k_data = k_data[:, 1].reshape(k_data.shape[0], 1)
         new_data = np.concatenate([n_data, k_data], axis=1)
         new_dataset['Data'] = _numeric_to_string_table(new_data)
-- 
2.43.0


From a2d847f3a4df5272f7cc5daf05c5085619cf0606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:19 +0000
Subject: [PATCH 21/92] fix: tables which are not in ascending order lost rows
 when written to file

such tables are interpolated correctly, but only ascending rows are kept when
reading a table.
---
 src/dispersion/spectral_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 8031eeb..761e9bc 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -246,7 +246,9 @@ class Interpolation(SpectralData):
         data['ValidRange'] = _numeric_to_string_table(self.valid_range.values)
         data['SpectrumType'] = self.spectrum_type
         data['Unit'] = self.unit
-        data['Data'] = _numeric_to_string_table(self.data)
+        # rows must be sorted to be read from file
+        sorted_data = self.data[np.argsort(self.data[:, 0])]
+        data['Data'] = _numeric_to_string_table(sorted_data)
         return data
 
 class Model(SpectralData):
-- 
2.43.0


From fbed81252e2f62a991def12b4e270f12f1890a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:16 +0000
Subject: [PATCH 22/92] fix: tables of unknown kind in a file were ignored
 instead of refused

---
 src/dispersion/material.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index fc56100..7ca32fd 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -495,6 +495,8 @@ class Material():
         elif identifier == 'eps_k':
             self.data['name'] = 'eps'
             self.data['imag'] = self._spec_data_from_table(table)
+        else:
+            raise ValueError("tabulated data <{}> invalid".format(identifier))
 
 
     def _spec_data_from_table(self, data):
-- 
2.43.0


From 3360e62998e91987e3c766816d42302f9e389b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:30 +0000
Subject: [PATCH 23/92] fix: materials could not be created from n and alpha
 tables

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 7ca32fd..5c7d6cb 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -217,7 +217,7 @@ class Material():
         if inputs['tabulated_nk'] is not None:
             _check_table_shape(inputs['tabulated_nk'], 3, 'nk')
         if inputs['tabulated_n_alpha'] is not None:
-            _check_table_shape(inputs['tabulated_nk'], 3, 'n_alpha')
+            _check_table_shape(inputs['tabulated_n_alpha'], 3, 'n_alpha')
         if inputs['tabulated_n'] is not None:
             _check_table_shape(inputs['tabulated_n'], 2, 'n')
         if inputs['tabulated_eps'] is not None:
-- 
2.43.0


From 5fb606283a934761dc48dfe13ce96ecfd4599afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:30 +0000
Subject: [PATCH 24/92] fix: the interpolation order given for a material was
 ignored

---
 src/dispersion/material.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 5c7d6cb..e4bef7b 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -115,7 +115,7 @@ class Material():
                      'real': None,
                      'imag': None,
                      'complex':None}
-        self.options = {'interp_oder':parsed_args["interp_order"]}
+        self.options = {'interp_order':parsed_args["interp_order"]}
         self.defaults = {'unit':parsed_args["unit"],
                          'spectrum_type':parsed_args["spectrum_type"]}
         #process input arguments
@@ -190,13 +190,13 @@ class Material():
             inputs['spectrum_type'] = 'wavelength'
         if inputs['unit'] is None:
             inputs['unit'] = 'nanometer'
-        if 'interp_order' not in inputs:
-            inputs['interp_order'] = 1
         # pylint: disable=no-member
         # bug in pylint does not recognise numpy data types
-        int_args = {'interp_oder'}
+        int_args = {'interp_order'}
         int_types = {int}
         self._check_type(inputs, int_args, int_types)
+        if inputs['interp_order'] is None:
+            inputs['interp_order'] = 1
 
         float_args = {"fixed_n", "fixed_eps_r"}
         float_types = {float, np.double}
@@ -524,7 +524,8 @@ class Material():
                             spectrum_type=spec_type, unit=unit)
 
         return Interpolation(data, spectrum_type=spec_type,
-                             unit=unit)
+                             unit=unit,
+                             interp_order=self.options['interp_order'])
 
     def _process_formula_data(self, data_dict):
         '''prepare dictionary of data for processing.
@@ -921,7 +922,7 @@ class EffectiveMedium(Material):
                      'real': None,
                      'imag': None,
                      'complex':None}
-        self.options = {'interp_oder':1}
+        self.options = {'interp_order':1}
         self.defaults = {'unit':'m',
                          'spectrum_type':'wavelength'}
         self.spectrum = spectrum
-- 
2.43.0


From 1b4c260cf1a5ad1f34acb006067155d28ae996f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:30 +0000
Subject: [PATCH 25/92] fix: maximum valid range of complex data ignored the
 unit of the range

---
 src/dispersion/material.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index e4bef7b..38f4328 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -697,8 +697,9 @@ class Material():
             lower = np.max([real_lower, imag_lower])
             upper = np.min([real_upper, imag_upper])
         else:
-            lower = np.min(self.data['complex'].valid_range.values)
-            upper = np.max(self.data['complex'].valid_range.values)
+            range_std = self.data['complex'].valid_range.standard_rep
+            lower = np.min(range_std)
+            upper = np.max(range_std)
         max_range = np.array([lower, upper])
         spec = Spectrum(max_range)
         return spec.convert_to(self.defaults['spectrum_type'],
-- 
2.43.0


From 18410fbb81d2b758cbf468e7849deca2c88c3e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:30 +0000
Subject: [PATCH 26/92] fix: maximum valid range was given as [upper, lower]
 for energies and frequencies

---
 src/dispersion/material.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 38f4328..25b7a0b 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -702,8 +702,12 @@ class Material():
             upper = np.max(range_std)
         max_range = np.array([lower, upper])
         spec = Spectrum(max_range)
-        return spec.convert_to(self.defaults['spectrum_type'],
-                               self.defaults['unit'])
+        max_range = spec.convert_to(self.defaults['spectrum_type'],
+                                    self.defaults['unit'])
+        if lower <= upper:
+            # the order is reversed for e.g. energy
+            max_range = np.sort(max_range)
+        return max_range
 
     @staticmethod
     def utf8_to_ascii(string):
-- 
2.43.0


From cd009f81bc5d1b1dcd0524c58373f52d538110d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:30 +0000
Subject: [PATCH 27/92] fix: sample spectrum of data with a half open range
 could lie outside of the range

---
 src/dispersion/material.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 25b7a0b..bf8db30 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -804,7 +804,17 @@ class Material():
         """spectrum which covers the maximum valid range of the material data"""
         max_range = self.get_maximum_valid_range()
         if max_range[0] == 0.0 or max_range[1] == np.inf:
-            values = np.geomspace(100, 2000, 1000)
+            range_spectrum = Spectrum(max_range,
+                                      self.defaults['spectrum_type'],
+                                      self.defaults['unit'])
+            bounds = range_spectrum.convert_to('wavelength', 'nm')
+            lower = np.max([100., np.min(bounds)])
+            upper = np.min([2000., np.max(bounds)])
+            if lower >= upper and np.max(bounds) == np.inf:
+                lower, upper = np.min(bounds), 20*np.min(bounds)
+            elif lower >= upper:
+                lower, upper = np.max(bounds)/20, np.max(bounds)
+            values = np.geomspace(lower, upper, 1000)
             spectrum = Spectrum(values, spectrum_type='wavelength',
                                 unit='nm')
         else:
-- 
2.43.0


From 0ebdd57dc763f03e03633636375dcdc687d33e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:30 +0000
Subject: [PATCH 28/92] fix: comparing a material with one loaded from file
 raised KeyError

---
 src/dispersion/material.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index bf8db30..221f9da 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -146,10 +146,8 @@ class Material():
         if not isinstance(other, Material):
             return False
 
-        for meta_data_key, meta_data_value in self.meta_data.items():
-            meta_data_value_other = other.meta_data[meta_data_key]
-            if not meta_data_value == meta_data_value_other:
-                return False
+        if not self.meta_data == other.meta_data:
+            return False
 
         if not self.data['name'] == other.data['name']:
             return False
@@ -431,6 +429,7 @@ class Material():
         self.meta_data['Name'] = file_dict['MetaData']['Name']
         self.meta_data['FullName'] = file_dict['MetaData']['FullName']
         self.meta_data['Author'] = file_dict['MetaData']['Author']
+        self.meta_data['Alias'] = ""
         self.meta_data['MetaComment'] = file_dict['MetaData']['MetaComment']
         self.meta_data['Specification'] = file_dict['MetaData']['Specification']
         datasets = file_dict['Datasets']
-- 
2.43.0


From ba16a707b2f0741798befa1a8669e51a8e27a17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:05 +0000
Subject: [PATCH 29/92] fix: creating an effective medium changed the caller's
 spectrum

---
 src/dispersion/material.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 221f9da..df677da 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -962,8 +962,8 @@ class Simple(EffectiveMedium):
         eps_base = self.mat1.get_permittivity(self.spectrum)
         eps_incl = self.mat2.get_permittivity(self.spectrum)
         eps_eff = eps_base*(1-self.frac) + eps_incl*(self.frac)
-        self.spectrum.convert_to("wavelength", 'm', in_place=True)
-        table = np.vstack([[self.spectrum.values],
+        wavelengths = self.spectrum.convert_to("wavelength", 'm')
+        table = np.vstack([[wavelengths],
                                 [np.real(eps_eff)],
                                 [np.imag(eps_eff)]]).T
         self._process_table(table, "eps")
@@ -980,8 +980,8 @@ class MaxwellGarnett(EffectiveMedium):
         if np.any(abs(factor_down)) < small_number_cutoff:
             raise ValueError('effective medium is approximately singular')
         eps_eff = eps_base*factor_up/factor_down
-        self.spectrum.convert_to("wavelength", 'm', in_place=True)
-        table = np.vstack([[self.spectrum.values],
+        wavelengths = self.spectrum.convert_to("wavelength", 'm')
+        table = np.vstack([[wavelengths],
                                 [np.real(eps_eff)],
                                 [np.imag(eps_eff)]]).T
         self._process_table(table, "eps")
@@ -1000,8 +1000,8 @@ class Bruggeman(EffectiveMedium):
         eps_eff = np.zeros(eps_b.shape, dtype=np.cdouble)
         eps_eff[indices2] = solution2[indices2]
         eps_eff[indices1] = solution1[indices1]
-        self.spectrum.convert_to("wavelength", 'm', in_place=True)
-        table = np.vstack([[self.spectrum.values],
+        wavelengths = self.spectrum.convert_to("wavelength", 'm')
+        table = np.vstack([[wavelengths],
                                 [np.real(eps_eff)],
                                 [np.imag(eps_eff)]]).T
         self._process_table(table, "eps")
-- 
2.43.0


From fd17396911ef8feb7f78f897048af68a7588650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:05 +0000
Subject: [PATCH 30/92] fix: Bruggeman medium could be zero or use the
 unphysical solution, and failed for scalars

---
 src/dispersion/material.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index df677da..686ebc0 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -995,11 +995,9 @@ class Bruggeman(EffectiveMedium):
         solution2 = self._get_bruggeman_solution2(eps_b, eps_a)
         self.sol1 = solution1
         self.sol2 = solution2
-        indices1 = np.imag(solution1) >= 0.0
-        indices2 = np.imag(solution2) >= 0.0
-        eps_eff = np.zeros(eps_b.shape, dtype=np.cdouble)
-        eps_eff[indices2] = solution2[indices2]
-        eps_eff[indices1] = solution1[indices1]
+        # the passive solution is the one with the larger imaginary part
+        eps_eff = np.where(np.imag(solution2) > np.imag(solution1),
+                           solution2, solution1)
         wavelengths = self.spectrum.convert_to("wavelength", 'm')
         table = np.vstack([[wavelengths],
                                 [np.real(eps_eff)],
-- 
2.43.0


From 345b8cd2fcfb79a199689143f73b6efbd733ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:05 +0000
Subject: [PATCH 31/92] fix: singular Maxwell-Garnett media were not detected

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 686ebc0..d2255f0 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -977,7 +977,7 @@ class MaxwellGarnett(EffectiveMedium):
         eps_incl = self.mat2.get_permittivity(self.spectrum)
         factor_up = 2*(1-self.frac)*eps_base+(1+2*self.frac)*eps_incl
         factor_down = (2+self.frac)*eps_base+(1-self.frac)*eps_incl
-        if np.any(abs(factor_down)) < small_number_cutoff:
+        if np.any(abs(factor_down) < small_number_cutoff):
             raise ValueError('effective medium is approximately singular')
         eps_eff = eps_base*factor_up/factor_down
         wavelengths = self.spectrum.convert_to("wavelength", 'm')
-- 
2.43.0


From 91095a2239a7824db87180b30544787fb952f6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:05 +0000
Subject: [PATCH 32/92] fix: effective media had no meta data and could not be
 compared or written

---
 src/dispersion/material.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index d2255f0..9ee6f6e 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -939,6 +939,9 @@ class EffectiveMedium(Material):
         self.options = {'interp_order':1}
         self.defaults = {'unit':'m',
                          'spectrum_type':'wavelength'}
+        self.meta_data = {'Reference': "", 'Comment': "", 'Name': "",
+                          'FullName': "", 'Author': "", 'Alias': "",
+                          'MetaComment': "", 'Specification': {}}
         self.spectrum = spectrum
         self.mat1 = material1
         self.mat2 = material2
-- 
2.43.0


From 51006086bd6d2c502749df8c0852582acf39675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:26 +0000
Subject: [PATCH 33/92] fix: a single spectral value could not be plotted

---
 src/dispersion/material.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 9ee6f6e..de0ecae 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -759,11 +759,11 @@ class Material():
         axes = plot_data['axes']
         plt.sca(axes)
         spectrum = plot_data['spectrum']
-        if spectrum.values.size == 1:
-            color = next(axes._get_lines.prop_cycler)['color']
-            plt.axhline(data_r, label=labels[0], color=color)
-            color = next(axes._get_lines.prop_cycler)['color']
-            plt.axhline(data_i, label=labels[1], ls='--', color=color)
+        if np.size(spectrum.values) == 1:
+            color = axes._get_lines.get_next_color()
+            plt.axhline(np.ravel(data_r)[0], label=labels[0], color=color)
+            color = axes._get_lines.get_next_color()
+            plt.axhline(np.ravel(data_i)[0], label=labels[1], ls='--', color=color)
         else:
             plt.plot(spectrum.values, data_r, label=labels[0])
             plt.plot(spectrum.values, data_i, ls='--', label=labels[1])
-- 
2.43.0


From 0196f1941702eea758c3902d875c86f099ded419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:59 +0000
Subject: [PATCH 34/92] fix: tables with a single row were dropped when writing
 to file

---
 src/dispersion/spectral_data.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 761e9bc..790c6c0 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -110,7 +110,14 @@ class Constant(SpectralData):
         data['ValidRange'] = _numeric_to_string_table(self.valid_range.values)
         data['SpectrumType'] = self.spectrum_type
         data['Unit'] = self.unit
-        data['Value'] = self.constant
+        lower, upper = self.valid_range.values
+        if lower == upper:
+            # table with a single row
+            data['DataType'] = "tabulated"
+            data['Data'] = _numeric_to_string_table(
+                np.array([[lower, self.constant]]))
+        else:
+            data['Value'] = self.constant
         return data
 
 class Extrapolation(SpectralData):
-- 
2.43.0


From ded3acd4d670eb08c0c90bec2893fdf07137aafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:44 +0000
Subject: [PATCH 35/92] fix: the leading comment of a file lost a character or
 grew with each write/read cycle

---
 src/dispersion/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index aa96628..9b31c67 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -411,7 +411,7 @@ class Reader():
                     multi_line_comment += line + "\n"
 
         if multi_line_comment != "":
-            file_dict['MetaData']['MetaComment'] = multi_line_comment
+            file_dict['MetaData']['MetaComment'] = multi_line_comment.rstrip()
         dataset = file_dict['Datasets'][0]
 
         if dataset['DataType'] == "":
@@ -432,7 +432,7 @@ class Reader():
         file_dict = dict(self.default_file_dict)
         file_dict = self._process_mat_dict(file_dict, yaml_data)
         mcomment = "\n".join(self._read_text_comment())
-        mcomment = mcomment[:-1]
+        mcomment = mcomment.rstrip()
         file_dict['MetaData']['MetaComment'] = mcomment
         return file_dict
 
-- 
2.43.0


From 82dbad74c4e2a9729e3b50c870f41f844c4c69f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:44 +0000
Subject: [PATCH 36/92] fix: models were not translated to formula numbers in
 refractiveindex.info style files

---
 src/dispersion/io.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 9b31c67..11feb37 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -571,15 +571,15 @@ class Writer():
                    "DataType": "type",
                    "Parameters": "coefficients",
                    "Data":"data",
-                   "Model:Sellmeier":"formula 1",
-                   "Model:Sellmeier2":"formula 2",
-                   "Model:Polynomial":"formula 3",
-                   "Model:RefractiveIndexInfo":"formula 4",
-                   "Model:Cauchy":"formula 5",
-                   "Model:Gases":"formula 6",
-                   "Model:Herzberger":"formula 7",
-                   "Model:Retro":"formula 8",
-                   "Model:Exotic":"formula 9"}
+                   "model Sellmeier":"formula 1",
+                   "model Sellmeier2":"formula 2",
+                   "model Polynomial":"formula 3",
+                   "model RefractiveIndexInfo":"formula 4",
+                   "model Cauchy":"formula 5",
+                   "model Gases":"formula 6",
+                   "model Herzberger":"formula 7",
+                   "model Retro":"formula 8",
+                   "model Exotic":"formula 9"}
 
     DATA_META_DATA_KEYS = ['Reference', 'Author',
                            'FullName', 'Name', 'Comment']
-- 
2.43.0


From efbe617eb397337fecbb8d8071fe9b9c0eb2ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:44 +0000
Subject: [PATCH 37/92] fix: specifications with other than the predefined
 names were not written

---
 src/dispersion/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 11feb37..f2cd51b 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -751,6 +751,9 @@ class Writer():
                 for key, val in specs.items():
                     if spec_key == key:
                         yaml_spec[spec_key] = val
+            for key, val in specs.items():
+                if key not in spec_order:
+                    yaml_spec[key] = val
             yaml_dict['SPECS'] = yaml_spec
 
         write_yaml_file(self.file_path, yaml_dict)
-- 
2.43.0


From ab736dd59e8853ae8e01080d1d43aab71ce2b19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:45 +0000
Subject: [PATCH 38/92] fix: validating a file name could create files outside
 of the temporary directory

---
 src/dispersion/io.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index f2cd51b..7d5d30c 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -241,17 +241,15 @@ def valid_file_name(filename):
     create a file with the filename in a temporary directory and delete the
     directory afterwards.
     """
+    if os.path.basename(filename) != filename:
+        return False
     with tempfile.TemporaryDirectory() as temp_dir:
         file_path = os.path.join(temp_dir, filename)
         try:
-            open(file_path, 'r')
-            return True
-        except IOError:
-            try:
-                open(file_path, 'w')
+            with open(file_path, 'w'):
                 return True
-            except IOError:
-                return False
+        except (IOError, ValueError):
+            return False
 
 
 class Reader():
-- 
2.43.0


From 6061993fac11c87498990e8708d6e6867ad91d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:45 +0000
Subject: [PATCH 39/92] fix: models with a single coefficient could not be read
 from file

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index de0ecae..7687208 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -548,7 +548,7 @@ class Material():
             valid_range[i_valid_range] = float(v_range)
         model_dict['valid_range'] = valid_range
 
-        coefficients = data_dict['Data'].split()
+        coefficients = str(data_dict['Data']).split()
         for iter_coeff, coeff in enumerate(coefficients):
             coefficients[iter_coeff] = float(coeff)
         model_dict['parameters'] = np.array(coefficients)
-- 
2.43.0


From 3e77c3d9eea5e1a7029de71b4120f913b44b4bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:59 +0000
Subject: [PATCH 40/92] fix: building the catalogue failed as DataFrame.append
 was removed from pandas

---
 src/dispersion/catalogue.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 59aa090..36925a1 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -20,9 +20,6 @@ import os
 import warnings
 import numpy as np
 import pandas as pd
-ver = pd.__version__
-split = ver.split(".")
-PANDAS_MINOR_VERSION = int(split[1])
 
 from dispersion.material import Material
 from dispersion.spectrum import Spectrum
@@ -142,18 +139,12 @@ class Catalogue(object):
                     dir_path = os.path.join(self.base_path, db_path)
                     read_function = all_modules[module]
                     dframe = read_function(dir_path)
-                    if PANDAS_MINOR_VERSION > 22:
-                        df_new = df_new.append(dframe, sort=False,
-                                               ignore_index=True)
-                    else:
-                        df_new = df_new.append(dframe, ignore_index=True)
+                    df_new = pd.concat([df_new, dframe], sort=False,
+                                       ignore_index=True)
                 else:
                     dframe = df[df.Module == module]
-                    if PANDAS_MINOR_VERSION > 22:
-                        df_new = df_new.append(dframe, sort=False,
-                                               ignore_index=True)
-                    else:
-                        df_new = df_new.append(dframe, ignore_index=True)
+                    df_new = pd.concat([df_new, dframe], sort=False,
+                                       ignore_index=True)
 
             else:
                 if rebuild == module:
-- 
2.43.0


From 8d77352f36c2342d4b27881dcdb33795fd8e2339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:59 +0000
Subject: [PATCH 41/92] fix: registering an alias for a sliced DataFrame failed

---
 src/dispersion/catalogue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 36925a1..e99acbc 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -217,7 +217,10 @@ class Catalogue(object):
         """
         index = None
         if isinstance(row_id, pd.core.frame.DataFrame):
-            index = row_id.index
+            if len(row_id.index) != 1:
+                raise ValueError("exactly one row is required to set an " +
+                                 "alias, not {}".format(len(row_id.index)))
+            index = row_id.index[0]
         elif isinstance(row_id, int):
             index = row_id
         if index is None:
-- 
2.43.0


From 7ce0f5da86a4ad5da83f6fccb788e6e74fd4832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:59 +0000
Subject: [PATCH 42/92] fix: registering an alias for an unknown row added an
 empty row to the catalogue

---
 src/dispersion/catalogue.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index e99acbc..d01bff4 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -227,6 +227,9 @@ class Catalogue(object):
             raise ValueError("row_id: {}".format(row_id) +
                              " with type {}".format(type(row_id)) +
                              " not understood")
+        if index not in self.database.index:
+            raise ValueError("row {} ".format(index) +
+                             "does not exist in the catalogue")
         if alias in self.database.loc[:, 'Alias'].values:
             if not self.database.at[index, 'Alias'] == alias:
                 raise ValueError("Alias {} ".format(alias) +
-- 
2.43.0


From e116a0ed31d167cd3c62e267f9b0643b1bdcbc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:59 +0000
Subject: [PATCH 43/92] fix: looking up an alias returned another material if
 the catalogue was reordered

---
 src/dispersion/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index d01bff4..878d46e 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -248,7 +248,7 @@ class Catalogue(object):
                 raise ValueError("identifier {} does not ".format(identifier) +
                                  "name a valid alias in the " +
                                  "catalogue")
-            row = self.database.iloc[row_index[0], :]
+            row = self.database.loc[row_index[0], :]
 
         elif isinstance(identifier, int):
             row = self.database.iloc[identifier, :]
-- 
2.43.0


From 7532594dc65972b810df97dd317666476fe7ebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:32 +0000
Subject: [PATCH 44/92] fix: catalogue bounds of data files not in nanometer
 were labelled as nanometer

---
 src/dispersion/catalogue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 878d46e..5adcb83 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -405,8 +405,8 @@ class Catalogue(object):
             content_dict['Module'] = database_name
             content_dict['Comment'] = mat.meta_data['Comment']
             content_dict['Reference'] = mat.meta_data['Reference']
-            content_dict['SpectrumType'] = "wavelength"
-            content_dict['Unit'] = 'nanometer'
+            content_dict['SpectrumType'] = mat.defaults['spectrum_type']
+            content_dict['Unit'] = mat.defaults['unit']
             valid_range = mat.get_maximum_valid_range()
             content_dict['SpectrumLowerBound'] = valid_range[0]
             content_dict['SpectrumUpperBound'] = valid_range[1]
-- 
2.43.0


From 3dc3911182a779a0d051f32f8b87bf0d08aa16a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:32 +0000
Subject: [PATCH 45/92] fix: the package could not be imported if the .config
 directory does not exist

---
 src/dispersion/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 62f561d..96c9572 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -83,7 +83,7 @@ def _get_user_config_dir():
         config_dir = os.path.join(home_dir, ".config",
                                   "dispersion")
     if not os.path.exists(config_dir):
-        os.mkdir(config_dir)
+        os.makedirs(config_dir)
     return config_dir
 
 def _get_package_dir():
-- 
2.43.0


From 337633b11ed0a8cef3df6a76332c756fd7a8f493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:49 +0000
Subject: [PATCH 46/92] fix: get_config raised an error instead of returning
 defaults if there is no config file

---
 src/dispersion/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 96c9572..7d41625 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -146,7 +146,7 @@ def get_config():
     """
     try:
         config = read_config()
-    except OSError as exc:
+    except (OSError, ValueError) as exc:
         warn("No configuration file found, generating default config.")
         config = default_config()
     return config
-- 
2.43.0


From 825d7db4028db102de8174aa673af03f3f1e4b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:49 +0000
Subject: [PATCH 47/92] fix: default config had a wrong path for directories
 with special characters

---
 src/dispersion/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 7d41625..e434d1e 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -59,7 +59,7 @@ def default_config():
         the tree of configuration data
     """
     yaml_str = """\
-    Path: {}
+    Path: ""
     File: catalogue.csv
     Interactive: false #for jupyter interfactive editing
     WarnMissingPackages: False # raise warnings if non-essential packages are missing
@@ -70,8 +70,9 @@ def default_config():
       Value: 632.8
       SpectrumType: wavelength
       Unit: nanometer
-    """.format(_get_user_config_dir())
+    """
     config = read_yaml_string(yaml_str)
+    config['Path'] = _get_user_config_dir()
     return config
 
 def _get_user_config_dir():
-- 
2.43.0


From 0c66f3ad8e0705233dd7562b7254473f4a8bee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:01 +0000
Subject: [PATCH 48/92] fix: setup failed if the root directory does not exist
 yet

---
 src/dispersion/scripts/setup_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/scripts/setup_dispersion.py b/src/dispersion/scripts/setup_dispersion.py
index 0e1832d..0ac8ba1 100644
--- a/src/dispersion/scripts/setup_dispersion.py
+++ b/src/dispersion/scripts/setup_dispersion.py
@@ -108,7 +108,7 @@ def install_modules(conf):
         if install:
             module_dir = os.path.join(conf['Path'], module)
             if not os.path.isdir(module_dir):
-                os.mkdir(module_dir)
+                os.makedirs(module_dir)
             success = install_funcs[module](module_dir)
             if success is False:
                 conf['Modules'][module] = success
-- 
2.43.0


From 3a844a06280ec14dd48fd58d65cb634e24be8599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:44 +0000
Subject: [PATCH 49/92] fix: rounding moved the maximum valid range outside of
 the data

---
 src/dispersion/material.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 7687208..b3d585a 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -699,10 +699,23 @@ class Material():
             range_std = self.data['complex'].valid_range.standard_rep
             lower = np.min(range_std)
             upper = np.max(range_std)
-        max_range = np.array([lower, upper])
-        spec = Spectrum(max_range)
+        range_std = np.array([lower, upper])
+        spec = Spectrum(range_std)
         max_range = spec.convert_to(self.defaults['spectrum_type'],
                                     self.defaults['unit'])
+        # the conversion rounds values, which must not move the bounds of
+        # data given in another spectrum type or unit outside of their range
+        rounded_std = Spectrum(max_range,
+                               spectrum_type=self.defaults['spectrum_type'],
+                               unit=self.defaults['unit']).standard_rep
+        for idx in range(2):
+            if rounded_std[idx] in (0., np.inf) or np.isclose(
+                    rounded_std[idx], range_std[idx], rtol=1e-12, atol=0.):
+                continue
+            ratio = range_std[idx]/rounded_std[idx]
+            if self.defaults['spectrum_type'].lower() != 'wavelength':
+                ratio = 1/ratio
+            max_range[idx] *= ratio
         if lower <= upper:
             # the order is reversed for e.g. energy
             max_range = np.sort(max_range)
-- 
2.43.0


From 87756593aff6cf6a3b392cc72192608019a7b213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:13 +0000
Subject: [PATCH 50/92] fix: refused extrapolation left the real part of a
 material extrapolated

---
 src/dispersion/material.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index b3d585a..67e7d7b 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -290,12 +290,14 @@ class Material():
         """
 
         if self.data['complex'] is None:
+            new_data = {}
             for data_name in ['real', 'imag']:
                 if isinstance(self.data[data_name], Constant):
                     continue
-                self.data[data_name] = Extrapolation(self.data[data_name],
-                                                     new_spectrum,
-                                                     spline_order=spline_order)
+                new_data[data_name] = Extrapolation(self.data[data_name],
+                                                    new_spectrum,
+                                                    spline_order=spline_order)
+            self.data.update(new_data)
         else:
             raise NotImplementedError("extrapolation not implemented " +
                                       "for materials with real and imaginary "+
-- 
2.43.0


From 3ae84be460db777a358976bba0088c7d82652773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:14 +0000
Subject: [PATCH 51/92] fix: unit of one data set of a file was applied to the
 following ones

---
 src/dispersion/material.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 67e7d7b..6444eac 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -437,7 +437,13 @@ class Material():
         datasets = file_dict['Datasets']
         #self.dataTypes = []
         #self.dataSets = []
+        defaults = dict(self.defaults)
         for dataset in datasets:
+            # each data set changes the defaults
+            if not dataset['SpectrumType']:
+                dataset['SpectrumType'] = defaults['spectrum_type']
+            if not dataset['Unit']:
+                dataset['Unit'] = defaults['unit']
             data_type, identifier = dataset['DataType'].split()
             #meta_data = dataset['MetaData']
             if data_type == 'tabulated':
-- 
2.43.0


From ab501c41c181803d7725c8771a0e5e3af45fb3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:40 +0000
Subject: [PATCH 52/92] fix: files repeating a spectral value could not be
 loaded

---
 src/dispersion/io.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 7d5d30c..121ec31 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -94,7 +94,7 @@ def _str_table_to_numeric(table):
     else:
         raise TypeError("table of type " +
                         "{} cannot be parsed".format(type(table)))
-    if validate_table(numeric_table) is False:
+    if not validate_table(numeric_table):
         numeric_table = fix_table(numeric_table)
     return numeric_table
 
@@ -102,26 +102,18 @@ def _str_table_to_numeric(table):
 
 def validate_table(tabulated_data):
     '''
-    check that spectral part (first column) is
-    monotonically increasing to be able to interpolate
+    check that no spectral value (first column) is repeated
+    to be able to interpolate
     '''
-    return np.all(tabulated_data[1:, 0] > tabulated_data[:-1, 0])
+    return np.unique(tabulated_data[:, 0]).size == tabulated_data.shape[0]
 
 
 def fix_table(tabulated_data):
     '''
-    throw out rows which break strict monotonicity
+    throw out rows which repeat the spectral value of an earlier row
     '''
-    n_cols = tabulated_data.shape[1]
-    new_rows = [tabulated_data[0, :]]
-    last_valid = tabulated_data[0, 0]
-    for row in range(1, tabulated_data.shape[0]):
-        if not tabulated_data[row, 0] > last_valid:
-            continue
-        else:
-            new_rows.append(tabulated_data[row, :])
-            last_valid = tabulated_data[row, 0]
-    return np.array(new_rows).reshape(-1, n_cols)
+    first_rows = np.unique(tabulated_data[:, 0], return_index=True)[1]
+    return tabulated_data[np.sort(first_rows), :]
 
 def read_yaml_file(file_path):
     """opens yaml file and returns contents as a dict like.
-- 
2.43.0


From 0bec3c7a17446487cab2013ba5ba97c983ae5099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:59 +0000
Subject: [PATCH 53/92] fix: plotting a material in another unit failed at the
 ends of its range

---
 src/dispersion/material.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 6444eac..94084d8 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -767,10 +767,10 @@ class Material():
         else:
             plot_data['axes'] = kwargs['axes']
         if data_label == 'nk':
-            data = self.get_nk_data(plot_data['spectrum'])
+            data = self.get_nk_data(plot_data['data_spectrum'])
             labels = ['n', 'k']
         elif data_label == 'permittivity':
-            data = self.get_permittivity(plot_data['spectrum'])
+            data = self.get_permittivity(plot_data['data_spectrum'])
             labels = ['eps_r', 'eps_i']
 
         data_r = np.real(data)
@@ -804,10 +804,13 @@ class Material():
             plot_data['unit'] = self.defaults['unit']
         else:
             plot_data['unit'] = kwargs['unit']
+        data_spectrum = None
         if 'values' not in kwargs:
-            spectrum = self.get_sample_spectrum()
-            values = spectrum.convert_to(plot_data['spectrum_type'],
-                                         plot_data['unit'])
+            # evaluated as is, rounding of the converted values could
+            # otherwise leave the valid range
+            data_spectrum = self.get_sample_spectrum()
+            values = data_spectrum.convert_to(plot_data['spectrum_type'],
+                                              plot_data['unit'])
 
 
         else:
@@ -818,6 +821,7 @@ class Material():
                             spectrum_type=plot_data['spectrum_type'],
                             unit=plot_data['unit'])
         plot_data['spectrum'] = spectrum
+        plot_data['data_spectrum'] = data_spectrum or spectrum
         return plot_data
 
     def get_sample_spectrum(self):
-- 
2.43.0


From 186f59d761e905ffb8a78871f499d92c52688159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:46 +0000
Subject: [PATCH 54/92] fix: a Spectrum shared its values with the caller's
 arrays and with conversion results

---
 src/dispersion/spectrum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 28b236b..9800950 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -102,7 +102,7 @@ def wavelength_to_standard(unit, values):
 def to_wavelength(unit, values):
     """converts values from standard to wavelength representation"""
     if unit == 'm':
-        converted_values = values
+        converted_values = values*1.0  # not the stored values themselves
     elif unit == 'cm':
         converted_values = np.round(values*1e2, decimals=13)
     elif unit == 'nm':
@@ -190,6 +190,8 @@ class Spectrum(object):
         if not ( isinstance(values, np.ndarray) or
                  isinstance(values, float)):
             raise ValueError("values must be array like or float")
+        if isinstance(values, np.ndarray):
+            values = values.copy()  # later changes by the caller have no effect
 
         self.values = values
         self.standard_rep = None  # values in standardised representation
-- 
2.43.0


From 0827f0c7a7fb207f4d775a5e02f33e2da498f9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:48 +0000
Subject: [PATCH 55/92] fix: tabulated and model data shared tables and
 parameters with the caller

---
 src/dispersion/spectral_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 790c6c0..71b3ac1 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -46,6 +46,7 @@ Notes
 for more information on models see https://refractiveindex.info/about
 """
 import re
+from copy import copy
 import numpy as np
 from scipy.interpolate import interp1d, splrep, splev
 from scipy.special import xlogy
@@ -220,6 +221,7 @@ class Interpolation(SpectralData):
 
     def __init__(self, data, spectrum_type='wavelength',
                  unit='m', interp_order=1):
+        data = np.array(data)  # later changes by the caller have no effect
         self.data = data
         self.interp_order = interp_order
         min_range = np.min(data[:, 0])
@@ -263,7 +265,8 @@ class Model(SpectralData):
 
     def __init__(self, model_parameters, valid_range, spectrum_type='wavelength',
                  unit='m'):
-        self.model_parameters = model_parameters
+        # later changes by the caller have no effect
+        self.model_parameters = copy(model_parameters)
         super(Model, self).__init__(valid_range,
                                     spectrum_type=spectrum_type,
                                     unit=unit)
-- 
2.43.0


From 9ec6e22b88d21d871172d93aec29988dec7a6a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:06 +0000
Subject: [PATCH 56/92] fix: Spectrum.convert_from took wavelengths in unknown
 units or aliases for metres

---
 src/dispersion/spectrum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 9800950..7f30be7 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -288,9 +288,12 @@ class Spectrum(object):
         """
         converts units from given type into wavelength/meter representation
         """
+        spectrum_type = spectrum_type.lower()
         if spectrum_type not in Spectrum.SPECTRUM_TYPES:
             raise ValueError("invalid spectrum type {}".format(spectrum_type))
 
+        unit = Spectrum.standardise_unit(spectrum_type, unit.lower())
+
         convert_methods = {'frequency': frequency_to_standard,
                            'energy': energy_to_standard,
                            'angularfrequency': ang_freq_to_standard,
-- 
2.43.0


From 7040aa2b6de59ae015ca6ba931119fbcd5ec4a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:29 +0000
Subject: [PATCH 57/92] fix: constant data were silently left out of written
 files

---
 src/dispersion/io.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 121ec31..fcf51d8 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -617,6 +617,23 @@ class Writer():
         """character which starts a comment line in this file type"""
         return ";" if self.extension == '.nk' else "#"
 
+    def _without_constants(self):
+        """data sets without the constant ones, which cannot be read from file
+
+        only constants equal to zero may be left out, as this is the default
+        for missing data
+        """
+        datasets = []
+        for dataset in self.file_dict['Datasets']:
+            if "constant" not in dataset['DataType']:
+                datasets.append(dataset)
+            elif dataset['Value'] != 0.0:
+                raise ValueError("constant data cannot be written to file")
+        if not datasets:
+            raise ValueError("there is only constant data, which cannot be " +
+                             "written to file")
+        return datasets
+
     def _write_text_file(self):
         """
         writer for .txt, .csv and .nk files
@@ -635,8 +652,7 @@ class Writer():
         if len(self.file_dict['Datasets']) < 1:
             raise ValueError("no datasets present in the file dict")
         # text files hold one table, constant data sets cannot be written
-        data_dicts = [data_dict for data_dict in self.file_dict['Datasets']
-                      if "constant" not in data_dict['DataType']]
+        data_dicts = self._without_constants()
         if (len(data_dicts) != 1 or
                 not data_dicts[0]['DataType'].startswith('tabulated')):
             raise ValueError("text files may only contain a single set of " +
@@ -679,14 +695,8 @@ class Writer():
                 pop_keys.append(key)
         for key in pop_keys:
             self.file_dict.pop(key)
-        pop_dataset = []
-
-        for ids, dataset in enumerate(self.file_dict['Datasets']):
-            if ("constant" in dataset['DataType'] and
-                    self.ignore_constant):
-                pop_dataset.append(ids)
-        for pop_id in pop_dataset:
-            self.file_dict['Datasets'].pop(pop_id)
+        if self.ignore_constant:
+            self.file_dict['Datasets'] = self._without_constants()
             # if isinstance(dataset['data'], np.ndarray):
             #     string_array = np.array2string(dataset['data'])
             #     no_brackets = re.sub(r'[\[\]]', '', string_array)
-- 
2.43.0


From 9adff091ec4b0941f7b7ff665ce73c95841274d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:02 +0000
Subject: [PATCH 58/92] fix: yaml files with keys that are not upper case could
 not be read

---
 src/dispersion/io.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index fcf51d8..66942e9 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -442,9 +442,8 @@ class Reader():
         dict
             the updated file_dict
         """
-        for kwd in yaml_dict:
+        for kwd, arg in yaml_dict.items():
             kwd = kwd.upper()
-            arg = yaml_dict[kwd]
             valid = False
             if kwd == 'DATA':
                 valid = True
-- 
2.43.0


From 0cd84859a326b455e43701b286f631d4ffabd122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:03 +0000
Subject: [PATCH 59/92] fix: additional meta data were written with the value
 of another field

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 66942e9..7445adc 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -705,8 +705,8 @@ class Writer():
 
         yaml_dict = {}
         for key in self.file_dict['MetaData']:
+            md = self.file_dict['MetaData'][key]
             if key in Writer.KEY_ALIASES:
-                md = self.file_dict['MetaData'][key]
                 yaml_dict[Writer.KEY_ALIASES[key]] = md
             else:
                 yaml_dict[key] = md
-- 
2.43.0


From 4ad1a14993ae1f8a1fd7c05ec7180ef693b523e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:48 +0000
Subject: [PATCH 60/92] fix: Fano model accepted other units than eV

---
 src/dispersion/spectral_data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 71b3ac1..41cf52e 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -723,11 +723,15 @@ class Fano(Model):
     requires energy input in eV
     returns real and imaginary parts of scattering cross section
     '''
-    def input_output(self):
-        """defines the required inputs and the output spectrum type"""
+    def __init__(self, model_parameters, valid_range,
+                 spectrum_type='wavelength', unit='m'):
+        super(Fano, self).__init__(model_parameters, valid_range,
+                                   spectrum_type=spectrum_type,
+                                   unit=unit)
         self.required_spectrum_type = 'energy'
         self.required_unit = 'ev'
         self.output = 'scattering_cross_setion'
+        self.validate_spectrum_type()
 
     def evaluate(self, spectrum):
         """returns the value of the spectral data for the given spectrum"""
-- 
2.43.0


From 07b3d4551ccb866ea1f2e7ea52bdda79c5179a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:30 +0000
Subject: [PATCH 61/92] fix: get_nk_data used the rounded values of a Spectrum
 converted in place

---
 src/dispersion/material.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 94084d8..36d4dde 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -608,16 +608,10 @@ class Material():
         np.array with np.complex128 dtype
             the complex n/k values (if input spectrum has size > 1)
         '''
-        if isinstance(spectrum, Spectrum):
-            spectrum_values = spectrum.values
-            spectrum_type = spectrum.spectrum_type
-            unit = spectrum.unit
-        else:
-            spectrum_values = spectrum
-
-        spectrum = Spectrum(spectrum_values,
-                            spectrum_type=spectrum_type,
-                            unit=unit)
+        if not isinstance(spectrum, Spectrum):
+            spectrum = Spectrum(spectrum,
+                                spectrum_type=spectrum_type,
+                                unit=unit)
         valid_data_names = ['nk', 'eps']
         if not (self.data['name'] in valid_data_names):
             raise ValueError("data type {}".format(self.data['name']) +
-- 
2.43.0


From 3417c495710b0ea8d7fb80cee25038fa5aacd2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:30 +0000
Subject: [PATCH 62/92] fix: rows after an empty line of a yaml data block were
 dropped

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 7445adc..dbfd2a6 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -84,7 +84,7 @@ def _str_table_to_numeric(table):
         numeric_table = []
         for row in table.split('\n'):
             if row.isspace() or row == "":
-                break
+                continue
             numeric_col = []
             for col in row.split():
                 numeric_col.append(float(col))
-- 
2.43.0


From 0e1398c79fd96a020e046fdbbe152832bf313ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:30 +0000
Subject: [PATCH 63/92] fix: yaml keys without value gave meta data of None,
 which could not be printed or written

---
 src/dispersion/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index dbfd2a6..94e519c 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -445,6 +445,9 @@ class Reader():
         for kwd, arg in yaml_dict.items():
             kwd = kwd.upper()
             valid = False
+            if arg is None:
+                # key without value
+                continue
             if kwd == 'DATA':
                 valid = True
                 file_dict['Datasets'] = self._process_mat_data_dict(arg)
-- 
2.43.0


From 01ef65015b7e3f78d30612d515716839caa4bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:36 +0000
Subject: [PATCH 64/92] fix: end points of a range in eV were refused when they
 round differently in another unit

---
 src/dispersion/spectrum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 7f30be7..ea8d0f2 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -238,7 +238,11 @@ class Spectrum(object):
             out_of_range = other_min
         elif other_max > self_max*(1. + tol):
             out_of_range = other_max
-        if out_of_range is not None:
+        # equal values may be rounded differently in different conversions
+        other_rep, self_rep = other.standard_rep, self.standard_rep
+        inside = (np.min(other_rep) >= np.min(self_rep)*(1. - tol) and
+                  np.max(other_rep) <= np.max(self_rep)*(1. + tol))
+        if out_of_range is not None and not inside:
             dsu = self.display_string(self.unit)  # display string unit
             raise ValueError("evaluation requested for " +
                              "{} {} {}, ".format(self.spectrum_type,
-- 
2.43.0


From 6387c3bd4da29281becb17ce9be27ee77262d8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:01 +0000
Subject: [PATCH 65/92] fix: header lines and keys that only begin like a
 metadata key were taken for it

---
 src/dispersion/io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 94e519c..c4e4020 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -372,7 +372,7 @@ class Reader():
         multi_line_comment = ""
         for line in comment:
             kwd_arg = line.split(":")
-            kwd = kwd_arg[0].upper().lstrip()
+            kwd = kwd_arg[0].upper().strip()
             if len(kwd_arg) == 1:
                 multi_line_comment += line + "\n"
             else:
@@ -380,7 +380,7 @@ class Reader():
                 #arg = kwd_arg[1].rstrip("\n\r").lstrip()
                 valid_key_val = False
                 for key in Reader.FILE_META_DATA_KEYS:
-                    if kwd.startswith(key.upper()):
+                    if kwd in {key.upper(), key.upper() + 'S'}:
                         if key == 'Specification':
                             file_dict['MetaData'][key] = str(arg)
                         else:
@@ -389,7 +389,7 @@ class Reader():
                         break
                 if valid_key_val is False:
                     for key in Reader.DATASET_META_DATA_KEYS:
-                        if kwd.startswith(key.upper()):
+                        if kwd in {key.upper(), key.upper() + 'S'}:
                             file_dict['Datasets'][0][key] = arg
                             valid_key_val = True
                             break
@@ -456,7 +456,7 @@ class Reader():
                 file_dict['MetaData']['Specification'] = arg
             if valid is False:
                 for key in Reader.FILE_META_DATA_KEYS:
-                    if kwd.startswith(key.upper()):
+                    if kwd in {key.upper(), key.upper() + 'S'}:
                         file_dict['MetaData'][key] = arg
                         valid = True
                         break
-- 
2.43.0


From 67149c7b14bcea0593f8633cff1cfb42b85cc879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:29 +0000
Subject: [PATCH 66/92] fix: parts without a common range gave the gap between
 them as valid range in energy or frequency

---
 src/dispersion/material.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 36d4dde..d82a9a7 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -718,9 +718,11 @@ class Material():
             if self.defaults['spectrum_type'].lower() != 'wavelength':
                 ratio = 1/ratio
             max_range[idx] *= ratio
-        if lower <= upper:
-            # the order is reversed for e.g. energy
-            max_range = np.sort(max_range)
+        # the order is reversed for e.g. energy
+        max_range = np.sort(max_range)
+        if lower > upper:
+            # the parts have no common range
+            max_range = max_range[::-1]
         return max_range
 
     @staticmethod
-- 
2.43.0


From 70924738de4f9a17b7cb4641cbee52284ec9beeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:57 +0000
Subject: [PATCH 67/92] fix: malformed yaml files were read on from the middle

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index c4e4020..98faae2 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -140,7 +140,7 @@ def read_yaml_file(file_path):
         else:
             try:
                 yaml_data = yaml.load(fpt, Loader=yaml.FullLoader)
-            except:
+            except AttributeError:  # old versions of pyyaml
                 yaml_data = yaml.safe_load(fpt)
     return yaml_data
 
-- 
2.43.0


From a8335bcfc467ce7e40951fb66a335a5beef17579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:58 +0000
Subject: [PATCH 68/92] fix: text files with a single column were read as a
 table with a single row

---
 src/dispersion/io.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 98faae2..44bc476 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -319,28 +319,28 @@ class Reader():
         try:
             if ext == '.txt':
                 try:
-                    data = np.loadtxt(self.file_path, encoding='utf-8')
+                    data = np.loadtxt(self.file_path, encoding='utf-8', ndmin=2)
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt)
+                        data = np.loadtxt(fpt, ndmin=2)
             elif ext == '.csv':
                 try:
-                    data = np.loadtxt(self.file_path, encoding='utf-8',
+                    data = np.loadtxt(self.file_path, encoding='utf-8', ndmin=2,
                                       delimiter=',')
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt,delimiter=',')
+                        data = np.loadtxt(fpt,delimiter=',', ndmin=2)
             elif ext == '.nk':
                 try:
-                    data = np.loadtxt(self.file_path, encoding='utf-8',
+                    data = np.loadtxt(self.file_path, encoding='utf-8', ndmin=2,
                                       comments=';')
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt, comments=';')
+                        data = np.loadtxt(fpt, comments=';', ndmin=2)
         except IOError as exc:
             raise exc
         data_dict = self._create_default_data_dict()
-        data_dict['Data'] = np.atleast_2d(data)
+        data_dict['Data'] = data
         return data_dict
 
     def _read_text_comment(self):
-- 
2.43.0


From 10e4a8d4ce417685de2c6ec9580e87852929ac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:59 +0000
Subject: [PATCH 69/92] fix: files with an empty list of data sets gave a
 material without data

---
 src/dispersion/material.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index d82a9a7..e12f098 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -435,6 +435,8 @@ class Material():
         self.meta_data['MetaComment'] = file_dict['MetaData']['MetaComment']
         self.meta_data['Specification'] = file_dict['MetaData']['Specification']
         datasets = file_dict['Datasets']
+        if not datasets:
+            raise ValueError("file does not contain any data")
         #self.dataTypes = []
         #self.dataSets = []
         defaults = dict(self.defaults)
-- 
2.43.0


From 3fadc33f621b26b70665ef7470f198500eb89987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:34 +0000
Subject: [PATCH 70/92] fix: written data depended on the user's numpy print
 options

---
 src/dispersion/io.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 44bc476..bca16ed 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -62,10 +62,12 @@ def _numeric_to_string_table(table):
     """
     returns a string representation of a numpy array
     """
-    string_array = np.array2string(np.asarray(table),
-                                   max_line_width=sys.maxsize,
-                                   threshold=sys.maxsize,
-                                   floatmode='unique')
+    # independent of how the user wants arrays to be printed
+    with np.printoptions(formatter=None, legacy=False):
+        string_array = np.array2string(np.asarray(table),
+                                       max_line_width=sys.maxsize,
+                                       threshold=sys.maxsize,
+                                       floatmode='unique')
     no_brackets = re.sub(r'[\[\]]', '', string_array)
     no_indent = re.sub(r'\n ', r"\n", no_brackets)
     no_indent = no_indent.rstrip().lstrip()
-- 
2.43.0


From f06e9a8b9e3c0d736979c59adf7539f00e569116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:24 +0000
Subject: [PATCH 71/92] fix: reading a file again changed the result of the
 first reading

---
 src/dispersion/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index bca16ed..b41ba48 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -37,6 +37,7 @@ import codecs
 import re
 import tempfile
 from collections import OrderedDict
+from copy import deepcopy
 import numpy as np
 USE_RUAMEL = True
 try:
@@ -369,7 +370,7 @@ class Reader():
 
         dataset = self._read_text_data()
         comment = self._read_text_comment()
-        file_dict = dict(self.default_file_dict)
+        file_dict = deepcopy(self.default_file_dict)
         file_dict['Datasets'][0] = dataset
         multi_line_comment = ""
         for line in comment:
@@ -421,7 +422,7 @@ class Reader():
         #dir_path = os.path.dirname(os.path.realpath(__file__))
         yaml_data = read_yaml_file(self.file_path)
 
-        file_dict = dict(self.default_file_dict)
+        file_dict = deepcopy(self.default_file_dict)
         file_dict = self._process_mat_dict(file_dict, yaml_data)
         mcomment = "\n".join(self._read_text_comment())
         mcomment = mcomment.rstrip()
-- 
2.43.0


From 18f01c9043916c6e81ef8e6036f3918e547d494c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:43 +0000
Subject: [PATCH 72/92] fix: a Writer could write only once

---
 src/dispersion/io.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index b41ba48..ef1e5fd 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -599,6 +599,18 @@ class Writer():
         """
         self.ignore_constant = ignore_constant
         self.use_rii_aliases = use_rii_aliases
+        file_dict = self.file_dict
+        # writing takes the dict apart
+        self.file_dict = deepcopy(file_dict)
+        try:
+            self._write_file()
+        finally:
+            self.file_dict = file_dict
+
+    def _write_file(self):
+        """
+        write the data in file_dict according to the file type
+        """
         meta_comment = self.file_dict['MetaData'].pop('MetaComment')
         #raise NotImplementedError("writing material files not yet implemented")
         txt_types = {'.txt', '.csv', '.nk'}
-- 
2.43.0


From 8e68e8b273bbe70ecf17c2bc670a408f7866c81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:47 +0000
Subject: [PATCH 73/92] fix: header of text files ended at form feeds and
 unicode line separators

codecs.open splits lines at characters such as \x0c, \x85 and U+2028, so
that a metadata value containing one cut off the rest of the header,
spectrum type and unit included.
---
 src/dispersion/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index ef1e5fd..fef9bb9 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -33,7 +33,6 @@ Writer
 """
 import os
 import sys
-import codecs
 import re
 import tempfile
 from collections import OrderedDict
@@ -351,7 +350,8 @@ class Reader():
         returns text from contiguous lines in file beginning with #.
         '''
         comment = []
-        with codecs.open(self.file_path, 'r', 'utf-8') as fpt:
+        # only line feeds and carriage returns end a line
+        with open(self.file_path, 'r', encoding='utf-8') as fpt:
             for line in fpt:
                 if line[0] == "#" or line[0] == ';':
                     comment.append(line[1:].rstrip("\n\r"))
-- 
2.43.0


From 5bc675cc43c3b9f29314ba71f01dd7673ecaccf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:19 +0000
Subject: [PATCH 74/92] fix: data starting at zero could not be extrapolated

---
 src/dispersion/spectral_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 41cf52e..95fc92f 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -74,7 +74,11 @@ class SpectralData():
         spaced set of values"""
         lower_bound = np.min(self.valid_range.values)
         upper_bound = np.max(self.valid_range.values)
-        suggest = np.geomspace(lower_bound, upper_bound, num=1000)
+        if lower_bound == 0.0:
+            # cannot be spaced geometrically
+            suggest = np.linspace(lower_bound, upper_bound, num=1000)
+        else:
+            suggest = np.geomspace(lower_bound, upper_bound, num=1000)
         return Spectrum(suggest,
                         spectrum_type=self.spectrum_type,
                         unit=self.unit)
-- 
2.43.0


From 37adcbde42ecf31be44b9afdec4c390ba6664282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:21 +0000
Subject: [PATCH 75/92] fix: setup disabled an installed database listed in
 catalog-nk.yml

---
 src/dispersion/scripts/setup_dispersion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/scripts/setup_dispersion.py b/src/dispersion/scripts/setup_dispersion.py
index 0ac8ba1..a9913dd 100644
--- a/src/dispersion/scripts/setup_dispersion.py
+++ b/src/dispersion/scripts/setup_dispersion.py
@@ -192,8 +192,11 @@ def install_rii(module_dir, ask_confirm=True):
                           " not present: {}".format(database_dir) +
                           " refractive index info module will be disabled")
             return False
+        # newer versions of the database are listed in catalog-nk.yml
         database_file = os.path.join(database_dir, "library.yml")
-        if not os.path.isfile(database_file):
+        new_database_file = os.path.join(database_dir, "catalog-nk.yml")
+        if not (os.path.isfile(database_file) or
+                os.path.isfile(new_database_file)):
             warnings.warn("library file for refractive index info module"+
                           " not present: {}".format(database_file) +
                           " refractive index info module will be disabled")
-- 
2.43.0


From 2fb16a8d8be84859d6bc5a17f64954fadc8f27dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:28 +0000
Subject: [PATCH 76/92] fix: looking up an empty alias returned some material
 without alias

---
 src/dispersion/catalogue.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 5adcb83..1a01a67 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -244,7 +244,8 @@ class Catalogue(object):
             bool_array = self.database.Alias.values == identifier
             bool_list = bool_array.tolist()
             row_index = self.database.index[bool_list]
-            if row_index.size == 0:
+            # an empty text is no alias
+            if row_index.size == 0 or identifier == "":
                 raise ValueError("identifier {} does not ".format(identifier) +
                                  "name a valid alias in the " +
                                  "catalogue")
-- 
2.43.0


From 1fdfb052daa9bb8dfa13bc04d448b6b76a1b9efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:36 +0000
Subject: [PATCH 77/92] fix: catalogue could not load files with a back slash
 in their name

---
 src/dispersion/catalogue.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 1a01a67..1905c9b 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -255,9 +255,12 @@ class Catalogue(object):
             row = self.database.iloc[identifier, :]
         else:
             raise ValueError("identifier must be of type str or int")
-        file_path = os.path.normpath(os.path.join(self.base_path,
-                                                  row.Module,
-                                                  row.Path.replace('\\', '/')))
+        module_path = os.path.join(self.base_path, row.Module)
+        file_path = os.path.normpath(os.path.join(module_path, row.Path))
+        if not os.path.isfile(file_path):
+            # the path may be from another operating system
+            rel_path = row.Path.replace('\\', '/')
+            file_path = os.path.normpath(os.path.join(module_path, rel_path))
         mat = Material(file_path=file_path,
                            spectrum_type=row.SpectrumType,
                            unit=row.Unit)
-- 
2.43.0


From e185bc282507978f0de22e85c49cc39ac17f17aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:40 +0000
Subject: [PATCH 78/92] fix: single precision values refused at the ends of the
 range

conversions of float32 arrays were off by 1e-7, so that a table (or a
request) in single precision was outside of its own range; values of less
than double precision are now converted to double precision
---
 src/dispersion/spectral_data.py | 7 ++++---
 src/dispersion/spectrum.py      | 8 ++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 95fc92f..3adba89 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -50,7 +50,7 @@ from copy import copy
 import numpy as np
 from scipy.interpolate import interp1d, splrep, splev
 from scipy.special import xlogy
-from dispersion.spectrum import Spectrum
+from dispersion.spectrum import Spectrum, double_precision
 from dispersion.io import _numeric_to_string_table
 
 
@@ -97,7 +97,7 @@ class Constant(SpectralData):
         super(Constant, self).__init__(valid_range,
                                        spectrum_type=spectrum_type,
                                        unit=unit)
-        self.constant = constant
+        self.constant = double_precision(constant)
 
     def evaluate(self, spectrum):
         """returns the value of the spectral data for the given spectrum"""
@@ -226,6 +226,7 @@ class Interpolation(SpectralData):
     def __init__(self, data, spectrum_type='wavelength',
                  unit='m', interp_order=1):
         data = np.array(data)  # later changes by the caller have no effect
+        data = double_precision(data)
         self.data = data
         self.interp_order = interp_order
         min_range = np.min(data[:, 0])
@@ -270,7 +271,7 @@ class Model(SpectralData):
     def __init__(self, model_parameters, valid_range, spectrum_type='wavelength',
                  unit='m'):
         # later changes by the caller have no effect
-        self.model_parameters = copy(model_parameters)
+        self.model_parameters = double_precision(copy(model_parameters))
         super(Model, self).__init__(valid_range,
                                     spectrum_type=spectrum_type,
                                     unit=unit)
diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index ea8d0f2..3f57a13 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -145,6 +145,13 @@ def to_wavenumber(unit, values):
     inverse = safe_inverse(values*1e2)
     return 2*np.pi*inverse
 
+def double_precision(values):
+    """numpy values of less than double precision as double precision"""
+    dtype = getattr(values, 'dtype', np.dtype(float))
+    if dtype.kind in 'fc' and np.finfo(dtype).precision < 15:
+        return values.astype(np.result_type(dtype, float))
+    return values
+
 class Spectrum(object):
     '''
     Class for converting between wavelength/frequency/energy
@@ -192,6 +199,7 @@ class Spectrum(object):
             raise ValueError("values must be array like or float")
         if isinstance(values, np.ndarray):
             values = values.copy()  # later changes by the caller have no effect
+            values = double_precision(values)
 
         self.values = values
         self.standard_rep = None  # values in standardised representation
-- 
2.43.0


From c07bd61f6a4206628270795a7f413426fa043b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:28 +0000
Subject: [PATCH 79/92] fix: files with numpy values in metadata could not be
 read

---
 src/dispersion/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index fef9bb9..184c5da 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -195,6 +195,11 @@ def write_yaml_file(file_path, dict_like):
             scalarstring.walk_tree(dict_like)
             yaml_obj.dump(dict_like, fpt)
         else:
+            # numpy values are written as plain numbers, text and lists
+            for numpy_type in (np.generic, np.ndarray):
+                yaml.add_multi_representer(
+                    numpy_type, lambda dumper, value:
+                    dumper.represent_data(value.tolist()))
             yaml.dump(dict_like, fpt)
 
 def print_yaml_string(dict_like):
-- 
2.43.0


From 38330fdc05a80bfdb43676ce6ccdd5f4ccfc7cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:49 +0000
Subject: [PATCH 80/92] fix: a failed download aborted the setup

---
 src/dispersion/scripts/setup_dispersion.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/scripts/setup_dispersion.py b/src/dispersion/scripts/setup_dispersion.py
index a9913dd..49071e2 100644
--- a/src/dispersion/scripts/setup_dispersion.py
+++ b/src/dispersion/scripts/setup_dispersion.py
@@ -177,10 +177,15 @@ def install_rii(module_dir, ask_confirm=True):
     else:
         install = True
     if install:
-        from git import Repo
         git_url = "https://github.com/polyanskiy/refractiveindex.info-database.git"
-        Repo.clone_from(git_url, module_dir)
-    else:
+        try:
+            from git import Repo
+            Repo.clone_from(git_url, module_dir)
+        except Exception as err:
+            warnings.warn("download of the refractive index info database"+
+                          " failed: {}".format(err))
+            install = False
+    if not install:
         if not os.path.isdir(module_dir):
             warnings.warn("directory for refractive index info module"+
                           " not present: {}".format(module_dir) +
-- 
2.43.0


From 58f30a9a4e4ab3bbeea692812cc199fa7462a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:42 +0000
Subject: [PATCH 81/92] fix: data sets of refractive index and permittivity
 were mixed up

---
 src/dispersion/material.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index e12f098..cbb52b6 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -440,6 +440,7 @@ class Material():
         #self.dataTypes = []
         #self.dataSets = []
         defaults = dict(self.defaults)
+        names = set()
         for dataset in datasets:
             # each data set changes the defaults
             if not dataset['SpectrumType']:
@@ -458,6 +459,11 @@ class Material():
                 self._process_formula_data(dataset)
             else:
                 raise ValueError("data type {} not supported".format(data_type))
+            names.add(self.data['name'])
+        if len(names) > 1 or (self.data['complex'] is not None and
+                              len(datasets) > 1):
+            raise ValueError("data sets of refractive index and permittivity" +
+                             " or of complex models cannot be combined")
 
     def _process_table(self, table, identifier, meta_data=None):
         """
-- 
2.43.0


From 4a620a62a55bced842e5bcf788c9948f23e36590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:59 +0000
Subject: [PATCH 82/92] fix: files with refractiveindex.info keys lost the unit
 of the data

---
 src/dispersion/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 184c5da..ecd4366 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -742,8 +742,12 @@ class Writer():
             for dataset in yaml_dict['DATA']:
 
                 yaml_dataset = {}
+                implied = (dataset.get("SpectrumType") == "wavelength" and
+                           dataset.get("Unit") in {"um", "micrometer"})
                 for key in dataset:
-                    if key in {"SpectrumType", "Unit", "Yields"}:
+                    if key == "Yields":
+                        continue
+                    if implied and key in {"SpectrumType", "Unit"}:
                         continue
                     value = dataset[key]
                     if value in Writer.RII_ALIASES:
-- 
2.43.0


From 4ad234eb11a6f88debbaac55809a934fe46fbd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:56 +0000
Subject: [PATCH 83/92] fix: models with integer parameters overflowed or were
 refused

---
 src/dispersion/spectral_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 3adba89..8599637 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -272,6 +272,9 @@ class Model(SpectralData):
                  unit='m'):
         # later changes by the caller have no effect
         self.model_parameters = double_precision(copy(model_parameters))
+        if np.asarray(self.model_parameters).dtype.kind in 'iu':
+            # integers overflow and have no negative powers
+            self.model_parameters = np.array(model_parameters, dtype=float)
         super(Model, self).__init__(valid_range,
                                     spectrum_type=spectrum_type,
                                     unit=unit)
-- 
2.43.0


From 0b2ae29e56f269d4e5eeb6a72df2a91f4dbf8796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:32 +0000
Subject: [PATCH 84/92] fix: files depended on how the user has infinity
 printed

---
 src/dispersion/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index ecd4366..e032a59 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -63,7 +63,8 @@ def _numeric_to_string_table(table):
     returns a string representation of a numpy array
     """
     # independent of how the user wants arrays to be printed
-    with np.printoptions(formatter=None, legacy=False):
+    with np.printoptions(formatter=None, legacy=False,
+                         infstr='inf', nanstr='nan', sign='-'):
         string_array = np.array2string(np.asarray(table),
                                        max_line_width=sys.maxsize,
                                        threshold=sys.maxsize,
-- 
2.43.0


From 551bd8115354ca7b6d6b9e7df123280e8ddcc147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:32 +0000
Subject: [PATCH 85/92] fix: constant data written to file could not be read

---
 src/dispersion/io.py       |  2 ++
 src/dispersion/material.py | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index e032a59..15eebeb 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -510,6 +510,8 @@ class Reader():
                     data_dict['Data'] = dataset['data']
                 except KeyError:
                     data_dict['Data'] = dataset['Data']
+            elif data_type.startswith('constant'):
+                data_dict['Data'] = dataset['Value']
             else:
                 raise KeyError("data type <{}> invalid".format(data_type))
 
diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index cbb52b6..a731690 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -457,6 +457,8 @@ class Material():
             elif data_type in {'formula', 'model'}:
                 #data is a formula with coefficients
                 self._process_formula_data(dataset)
+            elif data_type == 'constant':
+                self._process_constant_data(dataset, identifier)
             else:
                 raise ValueError("data type {} not supported".format(data_type))
             names.add(self.data['name'])
@@ -465,6 +467,20 @@ class Material():
             raise ValueError("data sets of refractive index and permittivity" +
                              " or of complex models cannot be combined")
 
+    def _process_constant_data(self, dataset, identifier):
+        """set relevant class attributes from a value and its valid range"""
+        names = {'n': ('nk', 'real'), 'k': ('nk', 'imag'),
+                 'eps_r': ('eps', 'real'), 'eps_k': ('eps', 'imag')}
+        if identifier not in names:
+            raise ValueError("constant data <{}> invalid".format(identifier))
+        name, part = names[identifier]
+        valid_range = [float(val) for val in dataset['ValidRange'].split()]
+        self.data['name'] = name
+        self.data[part] = Constant(float(dataset['Data']),
+                                   valid_range=valid_range,
+                                   spectrum_type=dataset['SpectrumType'],
+                                   unit=dataset['Unit'])
+
     def _process_table(self, table, identifier, meta_data=None):
         """
         Uses a table(np.ndarray) and metadata to set relevant class attributes.
-- 
2.43.0


From a2c75853ac8a4a04f7acf86402da121cb1662350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:32 +0000
Subject: [PATCH 86/92] fix: pages stating their own unit were listed in
 micrometer

---
 src/dispersion/catalogue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 1905c9b..7f9845f 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -358,8 +358,8 @@ class Catalogue(object):
                                 "Author":page['PAGE'],
                                 "Path":os.path.normpath(rel_path),
                                 "Module":"RefractiveIndexInfo"}
-                content_dict['SpectrumType'] = 'wavelength'
-                content_dict['Unit'] = 'micrometer'
+                content_dict['SpectrumType'] = mat.defaults['spectrum_type']
+                content_dict['Unit'] = mat.defaults['unit']
                 valid_range = mat.get_maximum_valid_range()
                 content_dict['SpectrumLowerBound'] = valid_range[0]
                 content_dict['SpectrumUpperBound'] = valid_range[1]
-- 
2.43.0


From a512ca2c6fcd78df198a9457b3315c926c9aeb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:58 +0000
Subject: [PATCH 87/92] fix: rows of files stating a unit for one data set only
 were loaded in that unit

---
 src/dispersion/catalogue.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 7f9845f..7a31dfa 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -261,9 +261,19 @@ class Catalogue(object):
             # the path may be from another operating system
             rel_path = row.Path.replace('\\', '/')
             file_path = os.path.normpath(os.path.join(module_path, rel_path))
+        # as when the row was made: the unit in the row may be stated by only
+        # one of the data sets of the file
+        unit = 'nanometer'
+        if row.Module == 'RefractiveIndexInfo':
+            unit = 'micrometer'
         mat = Material(file_path=file_path,
-                           spectrum_type=row.SpectrumType,
-                           unit=row.Unit)
+                           spectrum_type='wavelength',
+                           unit=unit)
+        if (mat.defaults['spectrum_type'] != row.SpectrumType or
+                mat.defaults['unit'] != row.Unit):
+            mat = Material(file_path=file_path,
+                               spectrum_type=row.SpectrumType,
+                               unit=row.Unit)
         return mat
 
     def make_reference_spectrum(self, config):
-- 
2.43.0


From c27ed18733672d360f00a15646185c8bf7fd3695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:42 +0000
Subject: [PATCH 88/92] fix: constants could only be evaluated for vectors

---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 8599637..f79d436 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -103,7 +103,7 @@ class Constant(SpectralData):
         """returns the value of the spectral data for the given spectrum"""
         self.valid_range.contains(spectrum)
         if isinstance(spectrum.values, (list, tuple, np.ndarray)):
-            return self.constant * np.ones(len(spectrum.values))
+            return self.constant * np.ones(np.shape(spectrum.values))
         return self.constant
 
     def dict_repr(self):
-- 
2.43.0


From e77d29d40cdf63b56542a7afb046493a7e8e9cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:43 +0000
Subject: [PATCH 89/92] fix: range of constants was lost in files

---
 src/dispersion/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 15eebeb..f4533c9 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -645,14 +645,16 @@ class Writer():
     def _without_constants(self):
         """data sets without the constant ones, which cannot be read from file
 
-        only constants equal to zero may be left out, as this is the default
-        for missing data
+        only constants equal to zero with unlimited range may be left out, as
+        this is the default for missing data
         """
         datasets = []
         for dataset in self.file_dict['Datasets']:
             if "constant" not in dataset['DataType']:
                 datasets.append(dataset)
-            elif dataset['Value'] != 0.0:
+            elif (dataset['Value'] != 0.0 or
+                  [float(val) for val in dataset['ValidRange'].split()] !=
+                  [0., np.inf]):
                 raise ValueError("constant data cannot be written to file")
         if not datasets:
             raise ValueError("there is only constant data, which cannot be " +
-- 
2.43.0


From db7a8d0cfbe4a8438fa8518d51d0c45d67ac35c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:34 +0000
Subject: [PATCH 90/92] fix: two extrapolation targets on one side were
 accepted in one order only

---
 src/dispersion/spectral_data.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index f79d436..25c4f85 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -155,14 +155,19 @@ class Extrapolation(SpectralData):
         extrap_values = extended_spectrum.convert_to(
             spectrum_type= base_spectrum.spectrum_type,
             unit= base_spectrum.unit)
-        new_range = np.sort(np.array(base_spectrum.values, dtype=np.double))
+        base_range = np.sort(np.array(base_spectrum.values, dtype=np.double))
+        new_range = base_range.copy()
         if isinstance(extrap_values, (list, tuple, np.ndarray)):
             # extrapolation both upper and lower
             if extrap_values.size > 2:
                 raise ValueError("extrapolation spectrum may contain at most" +
                                  "2 values not {}".format(extrap_values.size))
             for extrap_val in extrap_values:
-                new_range = self.validate_extrap_val(extrap_val, new_range)
+                # both may lie on the same side, in any order
+                extended = self.validate_extrap_val(extrap_val,
+                                                    base_range.copy())
+                new_range[0] = min(new_range[0], extended[0])
+                new_range[1] = max(new_range[1], extended[1])
         else:
             # upper or lower
             extrap_val = extrap_values
-- 
2.43.0


From afcfe2ef7ff4f7343cdbdc81e5b371feff238fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:53 +0000
Subject: [PATCH 91/92] fix: keys T, Y, P and E of a data set replaced its type

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index f4533c9..b60dd2a 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -489,7 +489,7 @@ class Reader():
         """
         aliases = {'ValidRange': {'validRange', 'range',
                                   'spectra_range', 'wavelength_range'},
-                   'DataType':'type'}
+                   'DataType': set()}  # read separately
         dataset_list = []
         for n_data_set, dataset in enumerate(mat_data):
             dataset_list.append(Reader._create_default_data_dict())
-- 
2.43.0


From ab6dcfb52638579797f7dd980dbbb617d8d84929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:16 +0000
Subject: [PATCH 92/92] fix: an alias for a row whose label is not unique was
 given to several rows

---
 src/dispersion/catalogue.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 7a31dfa..21330d3 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -230,6 +230,9 @@ class Catalogue(object):
         if index not in self.database.index:
             raise ValueError("row {} ".format(index) +
                              "does not exist in the catalogue")
+        if list(self.database.index).count(index) > 1:
+            raise ValueError("row {} ".format(index) +
+                             "is not unique in the catalogue")
         if alias in self.database.loc[:, 'Alias'].values:
             if not self.database.at[index, 'Alias'] == alias:
                 raise ValueError("Alias {} ".format(alias) +
@@ -243,13 +246,13 @@ class Catalogue(object):
         if isinstance(identifier, str):
             bool_array = self.database.Alias.values == identifier
             bool_list = bool_array.tolist()
-            row_index = self.database.index[bool_list]
             # an empty text is no alias
-            if row_index.size == 0 or identifier == "":
+            if True not in bool_list or identifier == "":
                 raise ValueError("identifier {} does not ".format(identifier) +
                                  "name a valid alias in the " +
                                  "catalogue")
-            row = self.database.loc[row_index[0], :]
+            # labels of rows need not be unique
+            row = self.database.iloc[bool_list.index(True), :]
 
         elif isinstance(identifier, int):
             row = self.database.iloc[identifier, :]
-- 
2.43.0

