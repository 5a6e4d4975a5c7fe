From 22e80b5b9ec8b8963c1c8ff246e9be87f1c07505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:26 +0000
Subject: [PATCH 01/96] fix: iterate sampled columns with items(), iteritems()
 was removed from pandas

---
 ASAPy/XsecSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 46d90d2..91bf33f 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -732,7 +732,7 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
     # sample_df contains relative values (sampled / mean) which are then multiplied by the actual continuous xsec and written to an ace file
 
     # iter over # of samples, each processor does 1 whole ace file no matter how many mts were sampled
-    for sample_number, _ in sample_dfs_rel[0].iteritems():
+    for sample_number, _ in sample_dfs_rel[0].items():
         if sample_number % size != rank: continue
 
         # load the base ace file to get a fresh copy
-- 
2.43.0


From e90b0253933025b4413a1a677b0d3e4692c4974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:26 +0000
Subject: [PATCH 02/96] fix: write only the samples every sampled MT has
 instead of failing part way

---
 ASAPy/XsecSampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 91bf33f..8f12b4b 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -732,7 +732,9 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
     # sample_df contains relative values (sampled / mean) which are then multiplied by the actual continuous xsec and written to an ace file
 
     # iter over # of samples, each processor does 1 whole ace file no matter how many mts were sampled
-    for sample_number, _ in sample_dfs_rel[0].items():
+    # reactions can keep a different number of samples (negative ones are removed), only whole sets can be written
+    sample_numbers = [n for n in sample_dfs_rel[0].columns if all(n in df.columns for df in sample_dfs_rel)]
+    for sample_number in sample_numbers:
         if sample_number % size != rank: continue
 
         # load the base ace file to get a fresh copy
-- 
2.43.0


From 6ec0830a26b35fcb2cf04fc907cc9cfa3f189d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:26 +0000
Subject: [PATCH 03/96] fix: import os and argparse for use when XsecSampler is
 imported as a module

---
 ASAPy/XsecSampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 8f12b4b..6b8d34c 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -1,3 +1,6 @@
+import argparse
+import os
+
 import matplotlib.pyplot as plt
 import numpy as np
 import pandas as pd
@@ -829,9 +832,6 @@ def create_argparser():
     return parser
 
 if __name__ == "__main__":
-    import os
-    import argparse
-
     parser = create_argparser()
     args = parser.parse_args()
 
-- 
2.43.0


From a7a5f01c1a6a32d59bb9f1296afe5f93462390b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:26 +0000
Subject: [PATCH 04/96] fix: default to the MTs the store has for the nuclide
 in the ACE file, not for any nuclide

---
 ASAPy/XsecSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 6b8d34c..7c18c64 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -899,7 +899,7 @@ if __name__ == "__main__":
         else:
             # read cov store keys for mts (/ZAID/MT/ZAID/MT)
             with pd.HDFStore(os.path.expanduser(store_name), 'r') as h:
-                mts = {int(i.split('/')[2]) for i in h}
+                mts = {int(i.split('/')[2]) for i in h if i.split('/')[1] == zaid}
                 mts = sorted(list(mts))
 
         # remove mt's not in the ACE file and print to the user (todo: log)
-- 
2.43.0


From b6fbd7d4559b6549f5e5d8adf813d83590503878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:26 +0000
Subject: [PATCH 05/96] fix: look up the requested temperature in the
 temperatures of the ACE file

---
 ASAPy/AceIO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 28a971a..5d28678 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -38,7 +38,7 @@ class AceEditor:
                 # try to see if the user left off "K"
                 temperature += 'K'
 
-            if temperature not in list(temperature):
+            if temperature not in temperatures:
                 raise Exception("Could not find temperature {0} in ace file".format(temperature))
 
         self.temperature = temperature
-- 
2.43.0


From d4086fce74d9c31cdb59304b8d321a7f7bbcfaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:27 +0000
Subject: [PATCH 06/96] fix: do not write an extra blank line when the last
 line of an ACE file is full

---
 ASAPy/AceIO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 5d28678..b3e72cc 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -506,7 +506,7 @@ class WriteAce:
                     values_printed_coutner = 0
 
             # ensure a new line at EOF
-            if values_printed_coutner < 4:
+            if values_printed_coutner > 0:
                 f.write('\n')
 
 if __name__ == "__main__":
-- 
2.43.0


From cfe04ebb9cfc46773316eb3dc9181a331d45f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:27 +0000
Subject: [PATCH 07/96] fix: honour the number of comment lines given in 2.0
 style ACE headers

---
 ASAPy/AceIO.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index b3e72cc..4f56053 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -428,7 +428,11 @@ class WriteAce:
             lines = f.readlines()
 
         # new type header: 2.0.0. (decimal in 2nd place of first word)
-        number_of_header_lines = [15 if lines[0].split()[0][1] == '.' else 12][0]
+        # these state the number of comment lines, which are followed by the 12 lines of the old type header
+        if lines[0].split()[0][1] == '.':
+            number_of_header_lines = 12 + int(lines[1].split()[3])
+        else:
+            number_of_header_lines = 12
 
         header_lines = lines[0:number_of_header_lines]
 
-- 
2.43.0


From 64578bceb07feea537b9574e084ae78656b92965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:14 +0000
Subject: [PATCH 08/96] fix: undo the pivoting of the modified cholesky
 factors, correlations went to the wrong variables

---
 ASAPy/CovManipulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 5c3a794..ff41dbc 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -363,8 +363,9 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
     try:
         C = sp.linalg.cholesky(desired_corr)
     except np.linalg.LinAlgError:
+        # undo the pivoting so the factor belongs to the variables in their given order
         P, L, e = gmw_cholesky(desired_corr)
-        C = L.T
+        C = np.dot(P, L).T
 
     M = col_independent_matrix(num_samples, num_vars)
     D = (1. / num_samples) * np.dot(M.T, M)
@@ -373,7 +374,7 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         E = sp.linalg.cholesky(D)
     except np.linalg.LinAlgError:
         P, L, e = gmw_cholesky(D)
-        E = L.T
+        E = np.dot(P, L).T
 
     N = np.dot(np.dot(M, np.linalg.inv(E)), C)
     R = rank(N)
-- 
2.43.0


From 270bdb053f2a4d7f5a269a855cf69f1b72573226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:14 +0000
Subject: [PATCH 09/96] fix: do not sample variables with a zero on the
 correlation diagonal, also if that is the only reason

---
 ASAPy/CovManipulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index ff41dbc..db8559b 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -319,6 +319,8 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         set_zero_corr_to_zero = np.diag(desired_corr) == 0
         if vars_to_not_sample_idx is not None:
             vars_to_not_sample_idx = [i + j for i, j in zip(vars_to_not_sample_idx, set_zero_corr_to_zero)]
+        else:
+            vars_to_not_sample_idx = list(set_zero_corr_to_zero)
 
     # only sample from things that are deemed samplable
     if vars_to_not_sample_idx is not None:
-- 
2.43.0


From 15c0f0f31a8e24f54831e411899d3be535076f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:14 +0000
Subject: [PATCH 10/96] fix: do not sample zero means with any distribution, it
 made samples of threshold reactions negative

---
 ASAPy/CovManipulation.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index db8559b..36dda96 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -305,15 +305,14 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         set_fix_val_idx = std_dev <= set_std_dev_below_this_to_zero
         vars_to_not_sample_idx = list(set_fix_val_idx)
 
-    if min(mean_values) == 0:
-        # cannot sample 0 mean with lognormal
-        if distro == 'lognormal':
-            set_zero_mean_idx = mean_values == 0
-
-            if vars_to_not_sample_idx is not None:
-                vars_to_not_sample_idx = [i + j for i,j in zip(vars_to_not_sample_idx, set_zero_mean_idx)]
-            else:
-                vars_to_not_sample_idx = set_zero_mean_idx
+    if np.any(mean_values_original == 0):
+        # cannot sample 0 mean with lognormal, and with the others it would make a sample negative half of the time
+        set_zero_mean_idx = mean_values_original == 0
+
+        if vars_to_not_sample_idx is not None:
+            vars_to_not_sample_idx = [i + j for i,j in zip(vars_to_not_sample_idx, set_zero_mean_idx)]
+        else:
+            vars_to_not_sample_idx = set_zero_mean_idx
 
     if np.any(np.diag(desired_corr) == 0):
         set_zero_corr_to_zero = np.diag(desired_corr) == 0
-- 
2.43.0


From 30e4caae375bca7cdf1bcd548a680fdbcba327be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:14 +0000
Subject: [PATCH 11/96] fix: give groups with a zero mean a relative value of
 1.0 rather than 0, infinity or no row at all

---
 ASAPy/XsecSampler.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 7c18c64..6060238 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -194,11 +194,14 @@ class XsecSampler:
         """
         Creates relative sample df keeping the group structure, removing negative samples (if desired)
         """
-        sample_df = samples / mean
+        samples = np.asarray(samples)
+        # a zero mean has no relative value, use the value sampled + 1.0 so it stays finite and changes nothing
+        mean_is_zero = mean == 0
+        sample_df = np.where(mean_is_zero, samples + 1.0, samples / np.where(mean_is_zero, 1.0, mean))
         sample_df = pd.DataFrame(sample_df.T, index=range(1, len(mean) + 1))
 
         if remove_neg:
-            sample_df = sample_df.loc[:, ((sample_df < 0).sum() == 0)].dropna()
+            sample_df = sample_df.loc[:, ((sample_df < 0).sum() == 0)]
 
         return sample_df
 
@@ -383,10 +386,6 @@ def sample_xsec(cov_hdf_store, mt, zaid, num_samples, sample_type='lognormal', r
 
     sample_df = xsec._sample_check(sample_df_full_vals.T, mean, remove_neg=False)
 
-    # if a NaN is found at this point, it's because the sample_df (rel) calc divided by 0 mean,
-    # set the rel dev to the value sampled + 1.0. Later we can check if mean = 0 and if it is just use rel dev
-    sample_df[sample_df.isna()] = sample_df_full_vals[sample_df.isna()]
-
     return sample_df, sample_df_full_vals
 
 def get_mt_from_ace(ace_file, mt):
-- 
2.43.0


From d192afb720e06ed855a8d9ed9e610d04527b6274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:14 +0000
Subject: [PATCH 12/96] fix: keep zero cross-sections zero in sampled files,
 they became about one barn

---
 ASAPy/XsecSampler.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 6060238..fbe058f 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -758,9 +758,6 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
                     sampled_xsec.append(map_groups_to_continuous(e_to_map_on, xsec['e high'], col,
                                                                  min_e=xsec['e low'].min()) * pdf_for_e_out)
             else:
-                # in case we get a 0 mean set it to 1.0. The sample_df sets rel_dev
-                original_sigma[original_sigma == 0] = 1
-
                 sampled_xsec = map_groups_to_continuous(e, xsec['e high'], col,min_e=xsec['e low'].min()) * original_sigma
 
             ae.set_sigma(mt, sampled_xsec)
-- 
2.43.0


From 907a6f2a1678e3095420263780de8672abfd95f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:14 +0000
Subject: [PATCH 13/96] fix: make the number of samples given by
 num_oversamples, it was ignored

---
 ASAPy/XsecSampler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index fbe058f..909754e 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -368,19 +368,21 @@ def sample_xsec(cov_hdf_store, mt, zaid, num_samples, sample_type='lognormal', r
     """
 
     if not num_samples_to_make:
-        # todo actually use this..
         num_samples_to_make = num_samples
 
     # ensure type
     num_samples = int(num_samples)
+    num_samples_to_make = int(num_samples_to_make)
 
     h = cov_hdf_store
 
     # sample data, keep the relative and full values sampled for plotting later
     xsec = XsecSampler(h, zaid, mt)
 
-    sample_df_full_vals = xsec.sample(sample_type, num_samples, return_relative=False, remove_neg=remove_neg,
+    sample_df_full_vals = xsec.sample(sample_type, num_samples_to_make, return_relative=False, remove_neg=remove_neg,
                                       raise_on_bad_sample=raise_on_bad_sample, mt=mt)
+    # the extra samples make up for removed ones, keep only what was asked for
+    sample_df_full_vals = sample_df_full_vals.iloc[:, :num_samples]
     mean = xsec.std_dev_df['x-sec(1)'].values
     # get the full values by multiplying in the mean by having the internal sample checker "normalize" the values to the 1/mean
 
-- 
2.43.0


From e1eab1a4ec3bb196deced80abd37e106d739288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:49 +0000
Subject: [PATCH 14/96] fix: format three digit exponents like NJOY does,
 arrays with such values were never replaced

---
 ASAPy/AceIO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 4f56053..5338cf9 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -459,7 +459,8 @@ class WriteAce:
         list
         """
 
-        original_str_formatted = [format(s, formatting) for s in array]
+        # NJOY leaves the E out when the exponent needs three digits
+        original_str_formatted = [re.sub(r'E([+-]\d{3})$', r'\1', format(s, formatting)) for s in array]
         original_str_line = ' '.join(original_str_formatted)
 
         return original_str_line
-- 
2.43.0


From ef20658d4dce2f03fa653368cb29c08646fe28bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:49 +0000
Subject: [PATCH 15/96] fix: sum rules carry adjusted reactions into sums over
 an absent sum, and into absorption

---
 ASAPy/AceIO.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 5338cf9..4291036 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -336,10 +336,10 @@ class AceEditor:
         mt_105 = list(range(700, 750))
         mt_106 = list(range(750, 800))
         mt_107 = list(range(800, 850))
-        mt_101 = [102, *mt_103, *mt_104, *mt_105, *mt_106, *mt_107, 108, 109, 111, 112, 113, 114, 115, 116, 117, 155,
+        mt_101 = [102, 103, 104, 105, 106, 107, 108, 109, 111, 112, 113, 114, 115, 116, 117, 155,
                   182, 191, 192, 193, 197]
         mt_18 = [19, 20, 21, 38]
-        mt_27 = [*mt_18, *mt_101]  # has 18 and 101 which are sums themselves
+        mt_27 = [18, 101]  # both are sums themselves
 
         mt_16 = list(range(875, 892))
         mt_4 = list(range(50, 92))
@@ -356,7 +356,20 @@ class AceEditor:
         sum_mts_list = [mt_107, mt_106, mt_105, mt_104, mt_103, mt_101, mt_18, mt_27, mt_16, mt_4, mt_3, mt_1]
         sum_mts = [107, 106, 105, 104, 103, 101, 18, 27, 16, 4, 3, 1]
 
+        sum_rules = dict(zip(sum_mts, sum_mts_list))
+
+        def present_or_constituents(mts):
+            # a sum that is not present is represented by its constituents
+            mts_expanded = []
+            for mt in mts:
+                if mt in sum_rules and mt not in self.all_mts:
+                    mts_expanded += present_or_constituents(sum_rules[mt])
+                else:
+                    mts_expanded.append(mt)
+            return mts_expanded
+
         for sum_mt, mts_in_sum in zip(sum_mts, sum_mts_list):
+            mts_in_sum = present_or_constituents(mts_in_sum)
             # ensure the sum'd mt is present before trying to set it
             if sum_mt in self.all_mts:
                 # find out which MTs within the sum MTs are present
-- 
2.43.0


From f3d4050e9df7b31c2e9e1f850b67fd318d417c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:49 +0000
Subject: [PATCH 16/96] fix: read ACE files with photon production for MT=3 but
 no absorption cross-section

---
 ASAPy/data/neutron.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index cff3c8f..78f7e01 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -665,12 +665,10 @@ class IncidentNeutron(EqualityMixin):
                 # Determine redundant cross section
                 rx = data._get_redundant_reaction(mt, mts)
                 rx.products += _get_photon_products_ace(ace, rx)
-                if mt == 3:
-                    # ASAPy: instead of summing all the bits, just use the known ACE file absorption xsec
-                    # which is mt=3 from the ace file. This is used because the sum causes round-off error making
-                    # the lazy ASAPy ace replace not work on mt=3
-                    data.reactions[101] = absorption
-                else:
+                # ASAPy: instead of summing all the bits for mt=3, just use the known ACE file absorption xsec
+                # (already added above if present). This is used because the sum causes round-off error making
+                # the lazy ASAPy ace replace not work on mt=3
+                if mt != 3:
                     data.reactions[mt] = rx
 
         # For transmutation reactions, sometimes only individual levels are
-- 
2.43.0


From 49c228965c0c87257d1b99ebda2cf3deb171cec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:49 +0000
Subject: [PATCH 17/96] fix: read HDF5 datasets with [()], the value attribute
 was removed from h5py

---
 ASAPy/data/angle_distribution.py  |  2 +-
 ASAPy/data/correlated.py          |  6 +++---
 ASAPy/data/energy_distribution.py |  2 +-
 ASAPy/data/function.py            |  6 +++---
 ASAPy/data/kalbach_mann.py        |  2 +-
 ASAPy/data/multipole.py           | 16 ++++++++--------
 ASAPy/data/neutron.py             |  4 ++--
 ASAPy/data/photon.py              | 14 +++++++-------
 ASAPy/data/reaction.py            |  2 +-
 ASAPy/data/thermal.py             | 12 ++++++------
 ASAPy/data/urr.py                 |  4 ++--
 11 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/ASAPy/data/angle_distribution.py b/ASAPy/data/angle_distribution.py
index e523f91..42df7c5 100644
--- a/ASAPy/data/angle_distribution.py
+++ b/ASAPy/data/angle_distribution.py
@@ -115,7 +115,7 @@ class AngleDistribution(EqualityMixin):
             Angular distribution
 
         """
-        energy = group['energy'].value
+        energy = group['energy'][()]
         data = group['mu']
         offsets = data.attrs['offsets']
         interpolation = data.attrs['interpolation']
diff --git a/ASAPy/data/correlated.py b/ASAPy/data/correlated.py
index 5d76ee8..5b2d145 100644
--- a/ASAPy/data/correlated.py
+++ b/ASAPy/data/correlated.py
@@ -210,15 +210,15 @@ class CorrelatedAngleEnergy(AngleEnergy):
         interp_data = group['energy'].attrs['interpolation']
         energy_breakpoints = interp_data[0, :]
         energy_interpolation = interp_data[1, :]
-        energy = group['energy'].value
+        energy = group['energy'][()]
 
         offsets = group['energy_out'].attrs['offsets']
         interpolation = group['energy_out'].attrs['interpolation']
         n_discrete_lines = group['energy_out'].attrs['n_discrete_lines']
-        dset_eout = group['energy_out'].value
+        dset_eout = group['energy_out'][()]
         energy_out = []
 
-        dset_mu = group['mu'].value
+        dset_mu = group['mu'][()]
         mu = []
 
         n_energy = len(energy)
diff --git a/ASAPy/data/energy_distribution.py b/ASAPy/data/energy_distribution.py
index f92e440..0243aab 100644
--- a/ASAPy/data/energy_distribution.py
+++ b/ASAPy/data/energy_distribution.py
@@ -1144,7 +1144,7 @@ class ContinuousTabular(EnergyDistribution):
         interp_data = group['energy'].attrs['interpolation']
         energy_breakpoints = interp_data[0, :]
         energy_interpolation = interp_data[1, :]
-        energy = group['energy'].value
+        energy = group['energy'][()]
 
         data = group['distribution']
         offsets = data.attrs['offsets']
diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 907c283..9e3b901 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -348,8 +348,8 @@ class Tabulated1D(Function1D):
             raise ValueError("Expected an HDF5 attribute 'type' equal to '"
                              + cls.__name__ + "'")
 
-        x = dataset.value[0, :]
-        y = dataset.value[1, :]
+        x = dataset[()][0, :]
+        y = dataset[()][1, :]
         breakpoints = dataset.attrs['breakpoints']
         interpolation = dataset.attrs['interpolation']
         return cls(x, y, breakpoints, interpolation)
@@ -433,7 +433,7 @@ class Polynomial(np.polynomial.Polynomial, Function1D):
         if dataset.attrs['type'].decode() != cls.__name__:
             raise ValueError("Expected an HDF5 attribute 'type' equal to '"
                              + cls.__name__ + "'")
-        return cls(dataset.value)
+        return cls(dataset[()])
 
 
 class Combination(EqualityMixin):
diff --git a/ASAPy/data/kalbach_mann.py b/ASAPy/data/kalbach_mann.py
index 8f9b77e..06e7925 100644
--- a/ASAPy/data/kalbach_mann.py
+++ b/ASAPy/data/kalbach_mann.py
@@ -203,7 +203,7 @@ class KalbachMann(angle_energy.AngleEnergy):
         interp_data = group['energy'].attrs['interpolation']
         energy_breakpoints = interp_data[0, :]
         energy_interpolation = interp_data[1, :]
-        energy = group['energy'].value
+        energy = group['energy'][()]
 
         data = group['distribution']
         offsets = data.attrs['offsets']
diff --git a/ASAPy/data/multipole.py b/ASAPy/data/multipole.py
index 01ad229..e97605c 100644
--- a/ASAPy/data/multipole.py
+++ b/ASAPy/data/multipole.py
@@ -356,24 +356,24 @@ class WindowedMultipole(EqualityMixin):
 
         # Read scalars.
 
-        out.spacing = group['spacing'].value
-        out.sqrtAWR = group['sqrtAWR'].value
-        out.E_min = group['E_min'].value
-        out.E_max = group['E_max'].value
+        out.spacing = group['spacing'][()]
+        out.sqrtAWR = group['sqrtAWR'][()]
+        out.E_min = group['E_min'][()]
+        out.E_max = group['E_max'][()]
 
         # Read arrays.
 
         err = "WMP '{}' array shape is not consistent with the '{}' array shape"
 
-        out.data = group['data'].value
+        out.data = group['data'][()]
 
-        out.windows = group['windows'].value
+        out.windows = group['windows'][()]
 
-        out.broaden_poly = group['broaden_poly'].value.astype(np.bool)
+        out.broaden_poly = group['broaden_poly'][()].astype(bool)
         if out.broaden_poly.shape[0] != out.windows.shape[0]:
             raise ValueError(err.format('broaden_poly', 'windows'))
 
-        out.curvefit = group['curvefit'].value
+        out.curvefit = group['curvefit'][()]
         if out.curvefit.shape[0] != out.windows.shape[0]:
             raise ValueError(err.format('curvefit', 'windows'))
 
diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 78f7e01..b7b9495 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -518,7 +518,7 @@ class IncidentNeutron(EqualityMixin):
         kTg = group['kTs']
         kTs = []
         for temp in kTg:
-            kTs.append(kTg[temp].value)
+            kTs.append(kTg[temp][()])
 
         data = cls(name, atomic_number, mass_number, metastable,
                    atomic_weight_ratio, kTs)
@@ -526,7 +526,7 @@ class IncidentNeutron(EqualityMixin):
         # Read energy grid
         e_group = group['energy']
         for temperature, dset in e_group.items():
-            data.energy[temperature] = dset.value
+            data.energy[temperature] = dset[()]
 
         # Read reaction data
         rxs_group = group['reactions']
diff --git a/ASAPy/data/photon.py b/ASAPy/data/photon.py
index 44d8ca4..2596d8a 100644
--- a/ASAPy/data/photon.py
+++ b/ASAPy/data/photon.py
@@ -560,12 +560,12 @@ class IncidentPhoton(EqualityMixin):
         if not _COMPTON_PROFILES:
             filename = os.path.join(os.path.dirname(__file__), 'compton_profiles.h5')
             with h5py.File(filename, 'r') as f:
-                _COMPTON_PROFILES['pz'] = f['pz'].value
+                _COMPTON_PROFILES['pz'] = f['pz'][()]
                 for i in range(1, 101):
                     group = f['{:03}'.format(i)]
-                    num_electrons = group['num_electrons'].value
-                    binding_energy = group['binding_energy'].value*EV_PER_MEV
-                    J = group['J'].value
+                    num_electrons = group['num_electrons'][()]
+                    binding_energy = group['binding_energy'][()]*EV_PER_MEV
+                    J = group['J'][()]
                     _COMPTON_PROFILES[i] = {'num_electrons': num_electrons,
                                             'binding_energy': binding_energy,
                                             'J': J}
@@ -582,15 +582,15 @@ class IncidentPhoton(EqualityMixin):
             filename = os.path.join(os.path.dirname(__file__), 'stopping_powers.h5')
             with h5py.File(filename, 'r') as f:
                 # Units are in MeV; convert to eV
-                _STOPPING_POWERS['energy'] = f['energy'].value*EV_PER_MEV
+                _STOPPING_POWERS['energy'] = f['energy'][()]*EV_PER_MEV
                 for i in range(1, 99):
                     group = f['{:03}'.format(i)]
 
                     # Units are in MeV cm^2/g; convert to eV cm^2/g
                     _STOPPING_POWERS[i] = {
                         'I': group.attrs['I'],
-                        's_collision': group['s_collision'].value*EV_PER_MEV,
-                        's_radiative': group['s_radiative'].value*EV_PER_MEV
+                        's_collision': group['s_collision'][()]*EV_PER_MEV,
+                        's_radiative': group['s_radiative'][()]*EV_PER_MEV
                     }
 
         # Add stopping power data
diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index bfc2598..269f571 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -936,7 +936,7 @@ class Reaction(EqualityMixin):
                             'Could not create reaction cross section for MT={} '
                             'at T={} because no corresponding energy grid '
                             'exists.'.format(mt, T))
-                    xs = Tgroup['xs'].value
+                    xs = Tgroup['xs'][()]
                     threshold_idx = Tgroup['xs'].attrs['threshold_idx'] - 1
                     tabulated_xs = Tabulated1D(energy[T][threshold_idx:], xs)
                     tabulated_xs._threshold_idx = threshold_idx
diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index 2022a25..7141212 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -196,8 +196,8 @@ class CoherentElastic(EqualityMixin):
             Coherent elastic scattering cross section
 
         """
-        bragg_edges = dataset.value[0, :]
-        factors = dataset.value[1, :]
+        bragg_edges = dataset[()][0, :]
+        factors = dataset[()][1, :]
         return cls(bragg_edges, factors)
 
 
@@ -410,7 +410,7 @@ class ThermalScattering(EqualityMixin):
         kTg = group['kTs']
         kTs = []
         for temp in kTg:
-            kTs.append(kTg[temp].value)
+            kTs.append(kTg[temp][()])
         temperatures = [str(int(round(kT / K_BOLTZMANN))) + "K" for kT in kTs]
 
         table = cls(name, atomic_weight_ratio, kTs)
@@ -434,7 +434,7 @@ class ThermalScattering(EqualityMixin):
 
                 # Angular distribution
                 if 'mu_out' in elastic_group:
-                    table.elastic_mu_out[T] = elastic_group['mu_out'].value
+                    table.elastic_mu_out[T] = elastic_group['mu_out'][()]
 
             # Read thermal inelastic scattering
             if 'inelastic' in Tgroup:
@@ -442,8 +442,8 @@ class ThermalScattering(EqualityMixin):
                 table.inelastic_xs[T] = Tabulated1D.from_hdf5(
                     inelastic_group['xs'])
                 if table.secondary_mode in ('equal', 'skewed'):
-                    table.inelastic_e_out[T] = inelastic_group['energy_out'].value
-                    table.inelastic_mu_out[T] = inelastic_group['mu_out'].value
+                    table.inelastic_e_out[T] = inelastic_group['energy_out'][()]
+                    table.inelastic_mu_out[T] = inelastic_group['mu_out'][()]
                 elif table.secondary_mode == 'continuous':
                     table.inelastic_dist[T] = AngleEnergy.from_hdf5(
                         inelastic_group)
diff --git a/ASAPy/data/urr.py b/ASAPy/data/urr.py
index b6b4c48..20001aa 100644
--- a/ASAPy/data/urr.py
+++ b/ASAPy/data/urr.py
@@ -166,8 +166,8 @@ class ProbabilityTables(EqualityMixin):
         absorption_flag = group.attrs['absorption']
         multiply_smooth = bool(group.attrs['multiply_smooth'])
 
-        energy = group['energy'].value
-        table = group['table'].value
+        energy = group['energy'][()]
+        table = group['table'][()]
 
         return cls(energy, table, interpolation, inelastic_flag,
                    absorption_flag, multiply_smooth)
-- 
2.43.0


From 0f525316c60352a22b7bbb77132938a944da8e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:49 +0000
Subject: [PATCH 18/96] fix: integral of linear-log interpolated functions left
 out the width of the interval

---
 ASAPy/data/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 9e3b901..fe858d4 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -295,7 +295,7 @@ class Tabulated1D(Function1D):
                 # Linear-log
                 logx = np.log(x1/x0)
                 m = (y1 - y0)/logx
-                partial_sum[i_low:i_high] = y0 + m*(x1*(logx - 1) + x0)
+                partial_sum[i_low:i_high] = y0*(x1 - x0) + m*(x1*(logx - 1) + x0)
 
             elif self.interpolation[k] == 4:
                 # Log-linear
-- 
2.43.0


From 8d7a0229c17a8d84c978a48325867d3f442f7ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:49 +0000
Subject: [PATCH 19/96] fix: put every element of an INTG record in its own
 column

---
 ASAPy/data/endf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/endf.py b/ASAPy/data/endf.py
index 0e56c1a..752f39d 100644
--- a/ASAPy/data/endf.py
+++ b/ASAPy/data/endf.py
@@ -324,9 +324,9 @@ def get_intg_record(file_obj):
                 break
             element = _int_endf(line[11+(ndigit+1)*j:11+(ndigit+1)*(j+1)])
             if element > 0:
-                corr[ii, jj] = (element+0.5)/factor
+                corr[ii, jj+j] = (element+0.5)/factor
             elif element < 0:
-                corr[ii, jj] = (element-0.5)/factor
+                corr[ii, jj+j] = (element-0.5)/factor
 
     # Symmetrize the correlation matrix
     corr = corr + corr.T - np.diag(corr.diagonal())
-- 
2.43.0


From 5faee356c96d8ac9cd983cd2a8b971f8acf07845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:50 +0000
Subject: [PATCH 20/96] fix: integrals of flat log-linear and 1/x log-log
 intervals were not finite

---
 ASAPy/data/function.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index fe858d4..f044350 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -299,14 +299,19 @@ class Tabulated1D(Function1D):
 
             elif self.interpolation[k] == 4:
                 # Log-linear
-                m = np.log(y1/y0)/(x1 - x0)
-                partial_sum[i_low:i_high] = y0/m*(np.exp(m*(x1 - x0)) - 1)
+                dx = x1 - x0
+                z = np.log(y1/y0)
+                flat = z == 0.0  # (exp(z) - 1)/z -> 1
+                partial_sum[i_low:i_high] = y0*dx*np.where(
+                    flat, 1.0, np.expm1(z)/np.where(flat, 1.0, z))
 
             elif self.interpolation[k] == 5:
                 # Log-log
-                m = np.log(y1/y0)/np.log(x1/x0)
-                partial_sum[i_low:i_high] = y0/((m + 1)*x0**m)*(
-                    x1**(m + 1) - x0**(m + 1))
+                logx = np.log(x1/x0)
+                z = np.log(y1/y0) + logx
+                flat = z == 0.0  # y ~ 1/x, where (exp(z) - 1)/z -> 1
+                partial_sum[i_low:i_high] = x0*y0*logx*np.where(
+                    flat, 1.0, np.expm1(z)/np.where(flat, 1.0, z))
 
             i_low = i_high
 
-- 
2.43.0


From 39d2719a4f6bf803244de663f90a7af597272fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:50 +0000
Subject: [PATCH 21/96] fix: feed heatr, purr and acer the latest PENDF tape,
 not the last covariance tape

---
 ASAPy/njoy.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 2ad08be..ce4cc6b 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -502,6 +502,7 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
     # reconr
     commands += _TEMPLATE_RECONR
     nlast = npendf
+    nbroadr = npendf  # latest PENDF tape if nothing is broadened
 
     # broadr
     if broadr:
@@ -509,6 +510,8 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
         commands += _TEMPLATE_BROADR
         nlast = nbroadr
 
+    npendf_last = nbroadr
+
     if errorr:
         if cov_energy_groups is None:
             raise Exception("Please provide a cov_energy_groups input.")
@@ -632,24 +635,24 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
         nheatr_in = nbroadr
         nheatr = nlast + 1
         commands += _TEMPLATE_HEATR
-        nlast = nheatr
+        nlast = npendf_last = nheatr
 
     # purr
     if purr:
-        npurr_in = nlast
-        npurr = npurr_in + 1
+        npurr_in = npendf_last
+        npurr = nlast + 1
         commands += _TEMPLATE_PURR
-        nlast = npurr
+        nlast = npendf_last = npurr
 
     commands = commands.format(**locals())
 
     # acer
     if acer:
-        nacer_in = nlast
+        nacer_in = npendf_last
         fname = '{}_{:.1f}'
         for i, temperature in enumerate(temperatures):
             # Extend input with an ACER run for each temperature
-            nace = nacer_in + 1 + 2*i
+            nace = nlast + 1 + 2*i
             ndir = nace + 1
             ext = '{:02}'.format(i + 1)
             commands += _TEMPLATE_ACER.format(**locals())
-- 
2.43.0


From 351a6db59bf136f7871e4cf90c0f74925abd5731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:27 +0000
Subject: [PATCH 22/96] fix: boxer2mat checks the size of continuation pages
 before reading them into its arrays

---
 boxer2mat/boxer2mat.f | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/boxer2mat/boxer2mat.f b/boxer2mat/boxer2mat.f
index ca64bbc..97c55f3 100644
--- a/boxer2mat/boxer2mat.f
+++ b/boxer2mat/boxer2mat.f
@@ -119,6 +119,8 @@ C     READ IN NEW PAGE OF DATA FROM NIN
       IF (J.NE.NCOL) STOP 11
       READ (NIN,210) ITYPEH,(IB(K),K=1,9),MATH,MTH,MAT1H,MT1H,NVAL,NVF
      1 ,NCON,NCF,NROWM,NROWH,NCOLH
+      IF (NVAL.GT.NVMAX) STOP 3
+      IF (NCON.GT.NCMAX) STOP 4
       CALL SETFOR (NVF,NCF,NOUT,IVFT,ICFT)
       IF (NVAL.GT.0) READ (NIN,IVFT) (XVAL(K),K=1,NVAL)
       IF (NCON.GT.0) READ (NIN,ICFT) (ICON(K),K=1,NCON)
-- 
2.43.0


From 07936e93838a3329794a48249f0eb30f45ab5494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:27 +0000
Subject: [PATCH 23/96] fix: uniform samples have the given mean and standard
 deviation

---
 ASAPy/CovManipulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 36dda96..75bd61f 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -398,6 +398,9 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         distro_to_sample_from = sci_norm
 
     elif distro == 'uniform':
+        # scipy's loc and scale are the lower edge and width, which give the mean and std_dev like this
+        mean_values = mean_values - 3 ** 0.5 * std_dev
+        std_dev = 2 * 3 ** 0.5 * std_dev
         distro_to_sample_from = uniform
 
     else:
-- 
2.43.0


From 7bf065dc5f7caeec7bb85cd6b2cf49ab911ca728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:27 +0000
Subject: [PATCH 24/96] fix: map energies equal to the lowest group boundary
 instead of failing

---
 ASAPy/XsecSampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 909754e..c5e3431 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -300,6 +300,8 @@ def map_groups_to_continuous(e_sigma, high_e_bins, multi_group_val, max_e=None,
 
     # map to actual group number
     group_nums = 1 + num_groups - bins
+    # min_e itself is in the lowest energy bin
+    group_nums[group_nums > num_groups] = num_groups
     # for now replace the too low and too high bins with nearest good bin. Later they will be overwritten to user value
     # this makes it easier to index indo multi_group_val
     group_nums[bins_too_low] = num_groups
-- 
2.43.0


From f15780d40abbe4e1d870a30ffa74b331662974bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:04 +0000
Subject: [PATCH 25/96] fix: load correlation matrices without any data as the
 comments describe instead of failing

---
 ASAPy/XsecSampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index c5e3431..d0707e6 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -84,7 +84,9 @@ class XsecSampler:
         # ensure diagonals and matrix normalized to 1.0 + have 1.0 on the diag
         if fill_corr_diag:
             np.fill_diagonal(corr_df.values, max(np.diag(corr_df.values)))  # boxer format used 1000 as 1.0 for correlations
-        corr_df = corr_df / max(np.diag(corr_df.values))
+        # (an all zero diagonal means there is no data, nothing to normalize)
+        if max(np.diag(corr_df.values)) > 0:
+            corr_df = corr_df / max(np.diag(corr_df.values))
 
 
         # make sure e low and e high are in the correct order
@@ -226,6 +228,8 @@ class XsecSampler:
 
         diag_non_zero = np.diag(corr_matrix) > 0
         corr_matrix_copy = corr_matrix[diag_non_zero, :][:, diag_non_zero]
+        if not diag_non_zero.any():
+            return corr_matrix_copy, diag_non_zero
 
         eigs, P = LA.eigh(corr_matrix_copy)
         if min(eigs) <= 1e-8:
-- 
2.43.0


From 991bcd023c0cf3d837409828f8d9bb53083ae762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:07 +0000
Subject: [PATCH 26/96] fix: draw a single sample instead of failing on its
 missing spread

---
 ASAPy/CovManipulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 75bd61f..efab19e 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -23,7 +23,9 @@ def col_independent_matrix(n, d):
     """
     x = np.arange(1, (n+1))
     p = sp.stats.norm.ppf(x/(n+1))
-    p = (p - p.mean()) / p.std()
+    if n > 1:
+        # (a single score has no spread to normalize)
+        p = (p - p.mean()) / p.std()
     score = np.zeros((n, d))
     for j in range(0, score.shape[1]):
         score[:, j] = np.random.permutation(p)
-- 
2.43.0


From 1d7d21bb58b05b4daba176a459f3a0d8646c7cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:39 +0000
Subject: [PATCH 27/96] fix: do not fail on reactions without a name (e.g.
 lumped covariances) when only logging them

---
 ASAPy/CovManipulation.py | 2 +-
 ASAPy/EndfToCov.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index efab19e..78f4927 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -343,7 +343,7 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         # we must treat the assumed correlations to be normal and transform them to lognormal to sample correctly
         # Large anti and positive correlations along with large relative uncertainties are not allowed for log normal
         if mt is not None:
-            print(f"Adjust cov from assumed normal to lognormal via G. Zerovnik for mt={mt} {REACTION_NAME[mt]}")
+            print(f"Adjust cov from assumed normal to lognormal via G. Zerovnik for mt={mt} {REACTION_NAME.get(mt, '')}")
         else:
             print(f"Adjust cov from assumed normal to lognormal via G. Zerovnik for mt= NOT PROVIDED")
         log_corr = np.zeros(desired_corr.shape)
diff --git a/ASAPy/EndfToCov.py b/ASAPy/EndfToCov.py
index dfbef89..6a5257f 100644
--- a/ASAPy/EndfToCov.py
+++ b/ASAPy/EndfToCov.py
@@ -350,11 +350,12 @@ def run_cover_chain(endf_file, mts, temperatures, output_dir='./', cov_energy_gr
 def process_cov_to_h5(output_dir, zaid, mt, boxer_matrix_name='covr_300.txt_{mt}_matrix.txt',
                       output_h5_format='u235_102_{0}g_cov.h5'):
 
+    rxn = REACTION_NAME[mt] if mt in REACTION_NAME else f"REACTION NAME NOT FOUND: {mt}"
     try:
         rbo = read_boxer_out_matrix(os.path.join(output_dir, boxer_matrix_name.format(mt=mt)))
         group_bounds, xsec, std_dev, cov = rbo.get_block_data()
     except RuntimeError as e:
-        print(f"Skipping zaid/mt {zaid}/{mt} {REACTION_NAME[mt]} in due to boxer output errors: {e}")
+        print(f"Skipping zaid/mt {zaid}/{mt} {rxn} in due to boxer output errors: {e}")
         return
 
     groups = cov.shape[0]
@@ -362,7 +363,6 @@ def process_cov_to_h5(output_dir, zaid, mt, boxer_matrix_name='covr_300.txt_{mt}
 
     # covert the cov read to corr
     corr = CovManipulation.cov_to_correlation(cov)
-    rxn = REACTION_NAME[mt] if mt in REACTION_NAME else f"REACTION NAME NOT FOUND: {mt}"
     if np.any(np.abs(corr) > 1):
         print(f"Cov matrix for zaid/mt={zaid}/{mt} {rxn} nis ill-composed. When converting to correlation matrix, |values| greater than 1.0 were found, setting these to -1/1 as needed")
 
-- 
2.43.0


From bf3b3315543f8f2a7def6c78e31a534ae3fcc168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:19 +0000
Subject: [PATCH 28/96] fix: keep a given open ENDF file open, reading all
 evaluations of a file failed after the first

---
 ASAPy/endf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ASAPy/endf.py b/ASAPy/endf.py
index 042051a..8faef4c 100644
--- a/ASAPy/endf.py
+++ b/ASAPy/endf.py
@@ -319,7 +319,8 @@ class Evaluation(object):
 
     """
     def __init__(self, filename_or_obj):
-        if isinstance(filename_or_obj, (str, PurePath)):
+        opened_here = isinstance(filename_or_obj, (str, PurePath))
+        if opened_here:
             fh = open(str(filename_or_obj), 'r')
         else:
             fh = filename_or_obj
@@ -366,7 +367,9 @@ class Evaluation(object):
 
         self._read_header()
 
-        fh.close()
+        # an open file given to us is needed for the next material
+        if opened_here:
+            fh.close()
 
     def _read_header(self):
         file_obj = io.StringIO(self.section[1, 451])
-- 
2.43.0


From 77877da03851fc3df035561e3a62f8a4ea1861a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:19 +0000
Subject: [PATCH 29/96] fix: give groupr the user flux for nu and chi too when
 the weight option asks for it

---
 ASAPy/njoy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index ce4cc6b..c4d8dfc 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -164,8 +164,8 @@ nu and chi /
 {cov_group_bounds}/"""
 
     if user_flux_weight:
-        # no newline needed since the next part has a new line to start with
-        s += user_flux_weight + "/"
+        # no newline needed at the end since the next part has a new line to start with
+        s += "\n" + user_flux_weight + "/"
 
     for i in range(num_temp):
         s += """
@@ -575,7 +575,7 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
             commands += "\n-- Nu-bar / Chi groupr\n"
             ngroupr_in = nbroadr  # PENDF tape
             ngroupr_out = nlast + 1
-            s = _TEMPLATE_GROUPR_FOR_PLOT(num_temp)
+            s = _TEMPLATE_GROUPR_FOR_PLOT(num_temp, user_flux_weight if iwt_fluxweight == 1 else None)
             commands += s.format(**locals())
 
             nlast += 1
-- 
2.43.0


From 43c0bc8a8b6f4615000f7e111fd66f133325c964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:19 +0000
Subject: [PATCH 30/96] fix: make_njoy_run can run NJOY and collects the ACE
 files it made

---
 ASAPy/njoy.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index c4d8dfc..d64c2e8 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -393,6 +393,10 @@ def run(commands, tapein, tapeout, input_filename=None, stdout=False,
                 shutil.move(tmpfilename, filename)
 
 
+# make_njoy_run has an argument called run
+_run_njoy = run
+
+
 def make_pendf(filename, pendf='pendf', error=0.001, stdout=False):
     """Generate ACE file from an ENDF file
 
@@ -662,7 +666,7 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
             tapeout[ndir] = fname.format(xsdir, temperature)
     commands += 'stop\n'
     if run:
-        run(commands, tapein, tapeout, **kwargs)
+        _run_njoy(commands, tapein, tapeout, **kwargs)
     else:
         with open('njoy_in.txt', 'w') as f:
             f.write(commands)
@@ -680,6 +684,18 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
                         mass_first_digit = int(text[3])
                         if mass_first_digit <= 2:
                             text = text[:3] + str(mass_first_digit + 4) + text[4:]
+
+                    # Concatenate into destination ACE file
+                    ace_file.write(text)
+
+                    # Concatenate into destination xsdir file
+                    text = open(fname.format(xsdir, temperature), 'r').read()
+                    xsdir_file.write(text)
+
+            # Remove ACE/xsdir files for each temperature
+            for temperature in temperatures:
+                os.remove(fname.format(ace, temperature))
+                os.remove(fname.format(xsdir, temperature))
         else:
             # see if the user should know to edit the acer file later
             if ev.target['isomeric_state'] > 0:
-- 
2.43.0


From db735958267b06adbaa23028ec23db6b3d2fefd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:43 +0000
Subject: [PATCH 31/96] fix: tables of an ASCII ACE library can be selected by
 name (text files cannot seek relative to the position)

---
 ASAPy/data/ace.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index b1f2b09..7fbf071 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -15,7 +15,6 @@ generates ACE-format cross sections.
 
 """
 
-from os import SEEK_CUR
 from pathlib import PurePath
 import struct
 import sys
@@ -378,7 +377,6 @@ class Library(EqualityMixin):
             nxs = np.fromstring(datastr, sep=' ', dtype=int)
 
             n_lines = (nxs[1] + 3)//4
-            n_bytes = len(lines[-1]) * (n_lines - 2) + 1
 
             # Ensure that we have more tables to read in
             if (table_names is not None) and (table_names < tables_seen):
@@ -387,17 +385,13 @@ class Library(EqualityMixin):
 
             # verify that we are suppossed to read this table in
             if (table_names is not None) and (name not in table_names):
-                ace_file.seek(n_bytes, SEEK_CUR)
-                ace_file.readline()
+                for i in range(n_lines - 1):
+                    ace_file.readline()
                 lines = [ace_file.readline() for i in range(13)]
                 continue
 
-            # read and fix over-shoot
-            lines += ace_file.readlines(n_bytes)
-            if 12 + n_lines < len(lines):
-                goback = sum([len(line) for line in lines[12+n_lines:]])
-                lines = lines[:12+n_lines]
-                ace_file.seek(-goback, SEEK_CUR)
+            # read the remaining lines of this table
+            lines += [ace_file.readline() for i in range(n_lines - 1)]
 
             if verbose:
                 kelvin = round(temperature * 1e6 / 8.617342e-5)
-- 
2.43.0


From 3b85525e4107d8bfc387f4fdeff64d0a162f5d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:23 +0000
Subject: [PATCH 32/96] fix: ascii_to_binary reads numbers that NJOY writes
 without an E

---
 ASAPy/data/ace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index 7fbf071..dcf12c4 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -24,7 +24,7 @@ import numpy as np
 from .mixin import EqualityMixin
 from . import checkvalue as cv
 from .data import ATOMIC_SYMBOL, gnd_name
-from .endf import ENDF_FLOAT_RE
+from .endf import ENDF_FLOAT_RE, float_endf
 
 
 def get_metadata(zaid, metastable_scheme='nndc'):
@@ -153,7 +153,7 @@ def ascii_to_binary(ascii_file, binary_file):
         # Read/write XSS array. Null bytes are added to form a complete record
         # at the end of the file
         n_lines = (nxs[0] + 3)//4
-        xss = list(map(float, ' '.join(lines[
+        xss = list(map(float_endf, ' '.join(lines[
             idx + 12:idx + 12 + n_lines]).split()))
         extra_bytes = record_length - ((len(xss)*8 - 1) % record_length + 1)
         binary.write(struct.pack(str('={0}d{1}x'.format(nxs[0], extra_bytes)),
-- 
2.43.0


From 66c8430a06bb1153ab4bc526908bc444e75ab9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:44 +0000
Subject: [PATCH 33/96] fix: the last number of an ACE table is read with its
 exponent if it has no E

---
 ASAPy/data/ace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index dcf12c4..1ca2ec0 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -412,7 +412,9 @@ class Library(EqualityMixin):
             # 1.0-120 is encountered, np.fromstring won't capture any numbers
             # after it). If it's too short, then we apply the ENDF float regular
             # expression. We don't do this by default because it's expensive!
-            if xss.size != nxs[1] + 1:
+            # The size is right even so if it is the very last number.
+            if (xss.size != nxs[1] + 1 or
+                    xss[-1] != float_endf(datastr.rsplit(None, 1)[-1])):
                 datastr = ENDF_FLOAT_RE.sub(r'\1e\2', datastr)
                 xss = np.fromstring(datastr, sep=' ')
                 assert xss.size == nxs[1] + 1
-- 
2.43.0


From 30b19be87ce7e819e03c7c88d2f574cb555bb1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:29 +0000
Subject: [PATCH 34/96] fix: a tabulated nu whose values are all equal is
 tabulated too, it was refused as a polynomial

---
 ASAPy/AceIO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 4291036..022d955 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -1,5 +1,6 @@
 import re
 from .data import neutron
+from .data.function import Tabulated1D
 import numpy as np
 import os
 import copy
@@ -219,8 +220,7 @@ class AceEditor:
 
         prod = fiss.derived_products[0]
 
-        label = prod.__repr__()
-        if 'tabulated' not in label:
+        if not isinstance(prod.yield_, Tabulated1D):
             raise TypeError(
                 "Fission nu distribition is not stored in the tabular format (ASAPy does not support poly) " + self.ace_path)
 
-- 
2.43.0


From 0015f98cdc309faa2fd7f3ccf9e63f07a3127cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:32 +0000
Subject: [PATCH 35/96] fix: tabulated and piecewise functions of integer
 arguments are not truncated to integers

---
 ASAPy/data/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index f044350..d2ebb51 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -155,7 +155,7 @@ class Tabulated1D(Function1D):
         # Check if input is array or scalar
         if isinstance(x, Iterable):
             iterable = True
-            x = np.array(x)
+            x = np.array(x, dtype=float)
         else:
             iterable = False
             x = np.array([x], dtype=float)
@@ -568,7 +568,7 @@ class Regions1D(EqualityMixin):
     def __call__(self, x):
         i = np.searchsorted(self.breakpoints, x)
         if isinstance(x, Iterable):
-            ans = np.empty_like(x)
+            ans = np.empty_like(x, dtype=float)
             for j in range(len(i)):
                 ans[j] = self.functions[i[j]](x[j])
             return ans
-- 
2.43.0


From a975919717590f8330c104608ba60a7bd479ea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:32 +0000
Subject: [PATCH 36/96] fix: the integral over a step of a tabulated function
 is zero, it was nan

---
 ASAPy/data/function.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index d2ebb51..7b3ce2d 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -287,15 +287,15 @@ class Tabulated1D(Function1D):
 
             elif self.interpolation[k] == 2:
                 # Linear-linear
-                m = (y1 - y0)/(x1 - x0)
-                partial_sum[i_low:i_high] = (y0 - m*x0)*(x1 - x0) + \
-                                            m*(x1**2 - x0**2)/2
+                partial_sum[i_low:i_high] = (y0 + y1)/2*(x1 - x0)
 
             elif self.interpolation[k] == 3:
                 # Linear-log
                 logx = np.log(x1/x0)
-                m = (y1 - y0)/logx
-                partial_sum[i_low:i_high] = y0*(x1 - x0) + m*(x1*(logx - 1) + x0)
+                step = logx == 0.0  # x0 = x1, nothing to integrate
+                m = (y1 - y0)/np.where(step, 1.0, logx)
+                partial_sum[i_low:i_high] = y0*(x1 - x0) + np.where(
+                    step, 0.0, m*(x1*(logx - 1) + x0))
 
             elif self.interpolation[k] == 4:
                 # Log-linear
-- 
2.43.0


From f9e3fedf1344bbe2ddf7d334303305a7c8555750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:43 +0000
Subject: [PATCH 37/96] fix: neutron data read from HDF5 can be exported again

---
 ASAPy/data/neutron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index b7b9495..05a593e 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -454,6 +454,10 @@ class IncidentNeutron(EqualityMixin):
                 if not (photon_rx or transmutation_rx or rx.mt == 4):
                     continue
 
+                # Sums made by from_hdf5 are made again when the file is read
+                if any(isinstance(xs, Sum) for xs in rx.xs.values()):
+                    continue
+
             rx_group = rxs_group.create_group('reaction_{:03}'.format(rx.mt))
             rx.to_hdf5(rx_group)
 
-- 
2.43.0


From 9d15d1cb27ae2e0c6712060becee7b2f6a4f8054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:43 +0000
Subject: [PATCH 38/96] fix: correlated distributions with discrete lines can
 be exported to HDF5

---
 ASAPy/data/correlated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/correlated.py b/ASAPy/data/correlated.py
index 5b2d145..475e3d2 100644
--- a/ASAPy/data/correlated.py
+++ b/ASAPy/data/correlated.py
@@ -118,7 +118,7 @@ class CorrelatedAngleEnergy(AngleEnergy):
                                                  self.interpolation))
 
         # Determine total number of (E,p) pairs and create array
-        n_tuple = sum(len(d.x) for d in self.energy_out)
+        n_tuple = sum(len(d) for d in self.energy_out)
         eout = np.empty((5, n_tuple))
 
         # Make sure all mu data is tabular
-- 
2.43.0


From cea68f8e6cf0ae4d965deda5d88f1217490518dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:31 +0000
Subject: [PATCH 39/96] fix: unresolved resonances with energy dependent
 fission widths get the width of their own energy

---
 ASAPy/data/resonance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index d13012c..dd83aee 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -1022,7 +1022,7 @@ class Unresolved(ResonanceRange):
                     gg = values[4]
                     gf = values[6:]
                     for k, gf_i in enumerate(gf):
-                        records[k].append([l, j, d, amun, gn0, gg, gf])
+                        records[k].append([l, j, d, amun, gn0, gg, gf_i])
             parameters = [pd.DataFrame(r, columns=columns) for r in records]
 
         elif formalism == 2:
-- 
2.43.0


From 7e0cb3e4de68a98859613ec3a43baee068638646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:31 +0000
Subject: [PATCH 40/96] fix: reconstructing a copy of a resonance range no
 longer changes the original

---
 ASAPy/data/resonance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index dd83aee..385610a 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -168,6 +168,7 @@ class ResonanceRange(object):
         new_copy = cls.__new__(cls)
         new_copy.__dict__.update(self.__dict__)
         new_copy._prepared = False
+        new_copy._parameter_matrix = {}
         return new_copy
 
     @classmethod
-- 
2.43.0


From 83bb0d392b9337289b44abb4ed9eadb6e293812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:31 +0000
Subject: [PATCH 41/96] fix: resonance cross-sections at integer energies are
 not truncated to integers

---
 ASAPy/data/resonance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index 385610a..a28dc23 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -234,9 +234,9 @@ class ResonanceRange(object):
             self._prepare_resonances()
 
         if isinstance(energies, Iterable):
-            elastic = np.zeros_like(energies)
-            capture = np.zeros_like(energies)
-            fission = np.zeros_like(energies)
+            elastic = np.zeros_like(energies, dtype=float)
+            capture = np.zeros_like(energies, dtype=float)
+            fission = np.zeros_like(energies, dtype=float)
 
             for i, E in enumerate(energies):
                 xse, xsg, xsf = self._reconstruct(self, E)
-- 
2.43.0


From 80179e31592f1a59b839f41263580a0350cc4122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:31 +0000
Subject: [PATCH 42/96] fix: competitive widths of Breit-Wigner resonances
 (wrong attribute, penetrability without the wave number)

---
 ASAPy/data/reconstruct.pyx | 8 ++++----
 ASAPy/data/resonance.py    | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/ASAPy/data/reconstruct.pyx b/ASAPy/data/reconstruct.pyx
index f63a155..6bca358 100644
--- a/ASAPy/data/reconstruct.pyx
+++ b/ASAPy/data/reconstruct.pyx
@@ -172,8 +172,8 @@ def reconstruct_mlbw(mlbw, double E):
         # Determine shift and penetration at modified energy
         if mlbw._competitive[i]:
             Ex = E + mlbw.q_value[l]*(A + 1)/A
-            rhoc = mlbw.channel_radius[l](Ex)
-            rhochat = mlbw.scattering_radius[l](Ex)
+            rhoc = _wave_number(A, Ex)*mlbw.channel_radius[l](Ex)
+            rhochat = _wave_number(A, Ex)*mlbw.scattering_radius[l](Ex)
             P_c, S_c = penetration_shift(l, rhoc)
             if Ex < 0:
                 P_c = 0
@@ -299,8 +299,8 @@ def reconstruct_slbw(slbw, double E):
         # Determine shift and penetration at modified energy
         if slbw._competitive[i]:
             Ex = E + slbw.q_value[l]*(A + 1)/A
-            rhoc = slbw.channel_radius[l](Ex)
-            rhochat = slbw.scattering_radius[l](Ex)
+            rhoc = _wave_number(A, Ex)*slbw.channel_radius[l](Ex)
+            rhochat = _wave_number(A, Ex)*slbw.scattering_radius[l](Ex)
             P_c, S_c = penetration_shift(l, rhoc)
             if Ex < 0:
                 P_c = 0
diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index a28dc23..ed81705 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -421,7 +421,9 @@ class MultiLevelBreitWigner(ResonanceRange):
         for i, E, l, J, gt, gn, gg, gf, gx in df.itertuples():
             if l not in l_values:
                 l_values.append(l)
-                competitive.append(gx > 0)
+                competitive.append(False)
+            if gx > 0:
+                competitive[l_values.index(l)] = True
 
             # Determine penetration and shift corresponding to resonance energy
             k = wave_number(A, E)
@@ -431,7 +433,8 @@ class MultiLevelBreitWigner(ResonanceRange):
 
             # Determine penetration at modified energy for competitive reaction
             if gx > 0:
-                Ex = E + self.q[l]*(A + 1)/A
+                Ex = E + self.q_value[l]*(A + 1)/A
+                k = wave_number(A, Ex)
                 rho = k*self.channel_radius[l](Ex)
                 rhohat = k*self.scattering_radius[l](Ex)
                 px[i], sx[i] = penetration_shift(l, rho)
-- 
2.43.0


From d9d9d6cd1efd94b4461827229e97d27823df0865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:31 +0000
Subject: [PATCH 43/96] fix: resonances with a background can be made and
 evaluated (undefined names)

---
 ASAPy/data/function.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 7b3ce2d..73d2bae 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -627,8 +627,10 @@ class ResonancesWithBackground(EqualityMixin):
         # Get background cross section
         xs = self.background(x)
 
+        from .resonance import _RESOLVED
+
         for r in self.resonances:
-            if not isinstance(r, resonance._RESOLVED):
+            if not isinstance(r, _RESOLVED):
                 continue
 
             if isinstance(x, Iterable):
@@ -669,6 +671,7 @@ class ResonancesWithBackground(EqualityMixin):
 
     @resonances.setter
     def resonances(self, resonances):
+        from .resonance import Resonances
         cv.check_type('resolved resonance parameters', resonances,
                       Resonances)
         self._resonances = resonances
-- 
2.43.0


From 2f1c9016a0dcc76a360f2d3b1247761b0e0dae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:19 +0000
Subject: [PATCH 44/96] fix: Reich-Moore resonances whose spin only one channel
 spin can make are not dropped

---
 ASAPy/data/reconstruct.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/reconstruct.pyx b/ASAPy/data/reconstruct.pyx
index 6bca358..e4a90ad 100644
--- a/ASAPy/data/reconstruct.pyx
+++ b/ASAPy/data/reconstruct.pyx
@@ -442,10 +442,13 @@ def reconstruct_rm(rm, double E):
                         # case, the sign of the channel spin indicates which
                         # spin is to be used. If the spin is negative assume
                         # this resonance comes from the I - 1/2 channel and vice
-                        # versa.
+                        # versa. If only one channel spin can make up J, the
+                        # resonance belongs to it whatever the sign.
                         j = params[i_res, 2]
                         if l > 0:
-                            if (j < 0 and s != smin) or (j > 0 and s != smax):
+                            if j < 0 and s != smin and abs(l - smin) <= J <= l + smin:
+                                continue
+                            if j > 0 and s != smax and abs(l - smax) <= J <= l + smax:
                                 continue
 
                         # Copy resonance parameters
-- 
2.43.0


From 747dee6541ad9659abb1da485098ad8b2da9a683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:29 +0000
Subject: [PATCH 45/96] fix: evaluations without resonance data can be read

---
 ASAPy/data/neutron.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 05a593e..bf1ef90 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -762,7 +762,8 @@ class IncidentNeutron(EqualityMixin):
 
         # Replace cross sections for elastic, capture, fission
         try:
-            if any(isinstance(r, res._RESOLVED) for r in data.resonances):
+            if any(isinstance(r, res._RESOLVED)
+                   for r in data.resonances or ()):
                 for mt in (2, 102, 18):
                     if mt in data.reactions:
                         rx = data.reactions[mt]
-- 
2.43.0


From 9c9840e1946a63dc83bdedec755eeae95c180ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:55 +0000
Subject: [PATCH 46/96] fix: the yield of delayed neutrons is given to the
 delayed groups, six or not

---
 ASAPy/data/reaction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 269f571..552a569 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -406,12 +406,12 @@ def _get_fission_products_endf(ev):
             # Nu represented as polynomial
             items, coefficients = get_list_record(file_obj)
             yield_ = Polynomial(coefficients)
-            for neutron in products[-6:]:
+            for neutron in products[-len(decay_constants):]:
                 neutron.yield_ = deepcopy(yield_)
         elif lnu == 2:
             # Nu represented by tabulation
             params, yield_ = get_tab1_record(file_obj)
-            for neutron in products[-6:]:
+            for neutron in products[-len(decay_constants):]:
                 neutron.yield_ = deepcopy(yield_)
 
         if (5, 455) in ev.section:
-- 
2.43.0


From 05a418432760b047b2cf939717cbe38e86b5db2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:55 +0000
Subject: [PATCH 47/96] fix: all coefficients of a polynomial delayed yield are
 scaled by the group fraction

---
 ASAPy/data/reaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 552a569..e16b6f9 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -453,7 +453,7 @@ def _get_fission_products_endf(ev):
                         delayed_neutron.yield_.y *= yield_.coef[0]
                     else:
                         if np.all(applicability.y == applicability.y[0]):
-                            yield_.coef[0] *= applicability.y[0]
+                            yield_.coef *= applicability.y[0]
                         else:
                             raise NotImplementedError(
                                 'Total delayed neutron yield and delayed group '
-- 
2.43.0


From ce4f83c153dcd99621fc6944422e7fbeabe95578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:55 +0000
Subject: [PATCH 48/96] fix: Legendre coefficients of two-body products (MF=6,
 LAW=2) start at l=1

---
 ASAPy/data/reaction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index e16b6f9..28f8139 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -147,7 +147,8 @@ def _get_products(ev, mt):
                 energy[i] = items[1]
                 lang = items[2]
                 if lang == 0:
-                    mu.append(Legendre(values))
+                    # a_0 = 1 is not given in the file
+                    mu.append(Legendre([1.0] + list(values)))
                 elif lang == 12:
                     mu.append(Tabular(values[::2], values[1::2]))
                 elif lang == 14:
-- 
2.43.0


From ddc1530566835676be8ba7f8d709209e85c5bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:55 +0000
Subject: [PATCH 49/96] fix: discrete photons of MF=12 and MF=13 get the photon
 energy, not the level energy

---
 ASAPy/data/reaction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 28f8139..11171ea 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -692,7 +692,7 @@ def _get_photon_products_endf(ev, rx):
                     # TODO: Get file 15 distribution
                     pass
                 elif law == 2:
-                    energy = items[1]
+                    energy = items[0]
                     primary_flag = items[2]
                     dist.energy = DiscretePhoton(primary_flag, energy,
                                                  ev.target['mass'])
@@ -750,7 +750,7 @@ def _get_photon_products_endf(ev, rx):
                 # TODO: Get file 15 distribution
                 pass
             elif law == 2:
-                energy = items[1]
+                energy = items[0]
                 primary_flag = items[2]
                 dist.energy = DiscretePhoton(primary_flag, energy,
                                              ev.target['mass'])
-- 
2.43.0


From 4fe674eb41fd786633b6c208fdde540d8d4f447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:03 +0000
Subject: [PATCH 50/96] fix: the resonance covariances of data without them are
 None

---
 ASAPy/data/neutron.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index bf1ef90..000c63f 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -110,6 +110,7 @@ class IncidentNeutron(EqualityMixin):
         self.reactions = OrderedDict()
         self._urr = {}
         self._resonances = None
+        self._resonance_covariance = None
 
     def __contains__(self, mt):
         return mt in self.reactions
-- 
2.43.0


From 4110a532ed8c13e0ce92d64541768be59a3135e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:03 +0000
Subject: [PATCH 51/96] fix: sampling of resonances with compact covariances no
 longer doubles the correlations

Covariances in the compact format are read as a full matrix, the sampling
added the transposed matrix as if only the upper triangle were filled.
---
 ASAPy/data/resonance_covariance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 58c01b0..05df4ad 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -235,6 +235,8 @@ class ResonanceCovarianceRange:
         cov = self.covariance
 
         # Symmetrizing covariance matrix
+        # (only its upper triangle counts, compact ones have both)
+        cov = np.triu(cov)
         cov = cov + cov.T - np.diag(cov.diagonal())
         formalism = self.formalism
         mpar = self.mpar
-- 
2.43.0


From 90496b6adf1cf64c0746247d73678e553c012586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:03 +0000
Subject: [PATCH 52/96] fix: sampled resonance widths keep their uncertainty
 next to much larger ones

---
 ASAPy/data/resonance_covariance.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 05df4ad..5f946d1 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -43,6 +43,19 @@ def _add_file2_contributions(file32params, file2params):
     return file32params
 
 
+def _sample_normal(mean, cov, n_samples):
+    """Sample a multivariate normal distribution in units of the standard
+    deviations. Those of energies and widths differ by so many orders of
+    magnitude that the covariance matrix itself cannot be decomposed.
+
+    """
+    std = np.sqrt(cov.diagonal())
+    unit = np.where(std > 0.0, std, 1.0)
+    samples = np.random.multivariate_normal(
+        np.zeros_like(mean), cov / np.outer(unit, unit), size=n_samples)
+    return mean + std*samples
+
+
 class ResonanceCovariances(Resonances):
     """Resolved resonance covariance data
 
@@ -249,8 +262,7 @@ class ResonanceCovarianceRange:
             param_list = params[:mpar]
             mean_array = parameters[param_list].values
             mean = mean_array.flatten()
-            par_samples = np.random.multivariate_normal(mean, cov,
-                                                        size=n_samples)
+            par_samples = _sample_normal(mean, cov, n_samples)
             spin = parameters['J'].values
             l_value = parameters['L'].values
             for sample in par_samples:
@@ -281,8 +293,7 @@ class ResonanceCovarianceRange:
             param_list = params[:mpar]
             mean_array = parameters[param_list].values
             mean = mean_array.flatten()
-            par_samples = np.random.multivariate_normal(mean, cov,
-                                                        size=n_samples)
+            par_samples = _sample_normal(mean, cov, n_samples)
             spin = parameters['J'].values
             l_value = parameters['L'].values
             for sample in par_samples:
-- 
2.43.0


From 76220e7a263ca99fb104cc701a498f21d5b8367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:03 +0000
Subject: [PATCH 53/96] fix: resonances with covariances of one, two or four
 parameters can be sampled

Parameters without covariances keep the values of the evaluation.
---
 ASAPy/data/resonance_covariance.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 5f946d1..1147732 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -267,8 +267,8 @@ class ResonanceCovarianceRange:
             l_value = parameters['L'].values
             for sample in par_samples:
                 energy = sample[0::mpar]
-                gn = sample[1::mpar]
-                gg = sample[2::mpar]
+                gn = sample[1::mpar] if mpar > 1 else parameters['neutronWidth'].values
+                gg = sample[2::mpar] if mpar > 2 else parameters['captureWidth'].values
                 gf = sample[3::mpar] if mpar > 3 else parameters['fissionWidth'].values
                 gx = sample[4::mpar] if mpar > 4 else parameters['competitiveWidth'].values
                 gt = gn + gg + gf + gx
@@ -298,10 +298,10 @@ class ResonanceCovarianceRange:
             l_value = parameters['L'].values
             for sample in par_samples:
                 energy = sample[0::mpar]
-                gn = sample[1::mpar]
-                gg = sample[2::mpar]
+                gn = sample[1::mpar] if mpar > 1 else parameters['neutronWidth'].values
+                gg = sample[2::mpar] if mpar > 2 else parameters['captureWidth'].values
                 gfa = sample[3::mpar] if mpar > 3 else parameters['fissionWidthA'].values
-                gfb = sample[4::mpar] if mpar > 3 else parameters['fissionWidthB'].values
+                gfb = sample[4::mpar] if mpar > 4 else parameters['fissionWidthB'].values
 
                 records = []
                 for j, E in enumerate(energy):
-- 
2.43.0


From 69dbc9c0eb769e3c7ecfddd845b5dc9c1a6be686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:03 +0000
Subject: [PATCH 54/96] fix: a subset of resonance covariances takes those of
 its resonances

The resonances were chosen in the order of file 2, the covariances are in
the order of file 32, and the labels of a subset are not positions in its matrix.
---
 ASAPy/data/resonance_covariance.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 1147732..c56c2c9 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -197,7 +197,7 @@ class ResonanceCovarianceRange:
         # Copy range and prevent change of original
         res_cov_range = copy.deepcopy(self)
 
-        parameters = self.file2res.parameters
+        parameters = self.parameters
         cov = res_cov_range.covariance
         mpar = res_cov_range.mpar
         # Create mask
@@ -205,7 +205,8 @@ class ResonanceCovarianceRange:
         mask2 = parameters[parameter_str] <= bounds[1]
         mask = mask1 & mask2
         res_cov_range.parameters = parameters[mask]
-        indices = res_cov_range.parameters.index.values
+        # Positions of the resonances in the covariance matrix
+        indices = np.flatnonzero(mask.values)
         # Build subset of covariance
         sub_cov_dim = len(indices)*mpar
         cov_subset_vals = []
@@ -221,7 +222,10 @@ class ResonanceCovarianceRange:
         tri_indices = np.triu_indices(sub_cov_dim)
         cov_subset[tri_indices] = cov_subset_vals
 
-        res_cov_range.file2res.parameters = parameters[mask]
+        file2params = self.file2res.parameters
+        mask = ((file2params[parameter_str] >= bounds[0]) &
+                (file2params[parameter_str] <= bounds[1]))
+        res_cov_range.file2res.parameters = file2params[mask]
         res_cov_range.covariance = cov_subset
         return res_cov_range
 
-- 
2.43.0


From bf8811a4cb4d193b46c015a413c64c03ab676134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:03 +0000
Subject: [PATCH 55/96] fix: resonance covariances in the compatible format
 with several l-values

---
 ASAPy/data/resonance_covariance.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index c56c2c9..6dd8797 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -469,7 +469,7 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
 
         # Compatible resolved resonance format
         elif lcomp == 0:
-            cov = np.zeros([4, 4])
+            cov = np.zeros([0, 0])
             records = []
             cov_index = 0
             for i in range(nls):
@@ -483,6 +483,8 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
 
                     # Populate the coviariance matrix for this resonance
                     # There are no covariances between resonances in lcomp=0
+                    cov = np.pad(cov, ((0, 4), (0, 4)), 'constant',
+                                 constant_values=0)
                     cov[cov_index, cov_index] = cov_values[0]
                     cov[cov_index+1, cov_index+1 : cov_index+2] = cov_values[1:2]
                     cov[cov_index+1, cov_index+3] = cov_values[4]
@@ -491,9 +493,6 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     cov[cov_index+3, cov_index+3] = cov_values[6]
 
                     cov_index += 4
-                    if j < num_res-1:  # Pad matrix for additional values
-                        cov = np.pad(cov, ((0, 4), (0, 4)), 'constant',
-                                     constant_values=0)
 
         # Create pandas DataFrame with resonance data, currently
         # redundant with data.IncidentNeutron.resonance
-- 
2.43.0


From 2b00a35854ed3cfb5da1e4198fda10b2671beef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:03 +0000
Subject: [PATCH 56/96] fix: covariance of neutron and capture width in the
 compatible format

---
 ASAPy/data/resonance_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 6dd8797..8cede95 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -486,7 +486,7 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     cov = np.pad(cov, ((0, 4), (0, 4)), 'constant',
                                  constant_values=0)
                     cov[cov_index, cov_index] = cov_values[0]
-                    cov[cov_index+1, cov_index+1 : cov_index+2] = cov_values[1:2]
+                    cov[cov_index+1, cov_index+1 : cov_index+3] = cov_values[1:3]
                     cov[cov_index+1, cov_index+3] = cov_values[4]
                     cov[cov_index+2, cov_index+2] = cov_values[3]
                     cov[cov_index+2, cov_index+3] = cov_values[5]
-- 
2.43.0


From 3956450219b04f6d0f95d8d5106c7e7ed35db95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:03 +0000
Subject: [PATCH 57/96] fix: resonance covariances given in several blocks are
 all kept

---
 ASAPy/data/resonance_covariance.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 8cede95..36fcc77 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -5,6 +5,7 @@ import copy
 
 import numpy as np
 import pandas as pd
+from scipy.linalg import block_diag
 
 from . import endf
 from . import checkvalue as cv
@@ -409,6 +410,7 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
 
             # Read resonance widths, J values, etc
             records = []
+            blocks = []
             for i in range(num_short_range):
                 items, values = endf.get_list_record(file_obj)
                 mpar = items[2]
@@ -430,9 +432,13 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
 
                 # Build the upper-triangular covariance matrix
                 cov_dim = mpar*num_res
-                cov = np.zeros([cov_dim, cov_dim])
+                block = np.zeros([cov_dim, cov_dim])
                 indices = np.triu_indices(cov_dim)
-                cov[indices] = cov_values
+                block[indices] = cov_values
+                blocks.append(block)
+
+            # Resonances in different blocks have no covariances
+            cov = block_diag(*blocks)
 
         # Compact format - Resonances and individual uncertainties followed by
         # compact correlations
@@ -644,6 +650,7 @@ class ReichMooreCovariance(ResonanceCovarianceRange):
             channel_radius = {}
             scattering_radius = {}
             records = []
+            blocks = []
             for i in range(num_short_range):
                 items, values = endf.get_list_record(file_obj)
                 mpar = items[2]
@@ -665,9 +672,13 @@ class ReichMooreCovariance(ResonanceCovarianceRange):
 
                 # Build the upper-triangular covariance matrix
                 cov_dim = mpar*num_res
-                cov = np.zeros([cov_dim, cov_dim])
+                block = np.zeros([cov_dim, cov_dim])
                 indices = np.triu_indices(cov_dim)
-                cov[indices] = cov_values
+                block[indices] = cov_values
+                blocks.append(block)
+
+            # Resonances in different blocks have no covariances
+            cov = block_diag(*blocks)
 
         # Compact format - Resonances and individual uncertainties followed by
         # compact correlations
-- 
2.43.0


From bc2e40dcc9f8bf8b8111e2df59d3742bcd4daa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:03 +0000
Subject: [PATCH 58/96] fix: compact resonance covariances with parameters of
 no uncertainty

---
 ASAPy/data/resonance_covariance.py | 34 ++++++++++++------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 36fcc77..0e81c2a 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -452,25 +452,19 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
             gn = values[3::12]
             gg = values[4::12]
             gf = values[5::12]
-            par_unc = []
-            for i in range(num_res):
-                res_unc = values[i*12+6 : i*12+12]
-                # Delete 0 values (not provided, no fission width)
-                # DAJ/DGT always zero, DGF sometimes nonzero [1, 2, 5]
-                res_unc_nonzero = []
-                for j in range(6):
-                    if j in [1, 2, 5] and res_unc[j] != 0.0:
-                        res_unc_nonzero.append(res_unc[j])
-                    elif j in [0, 3, 4]:
-                        res_unc_nonzero.append(res_unc[j])
-                par_unc.extend(res_unc_nonzero)
-
             records = []
             for i, E in enumerate(energy):
                 records.append([energy[i], spin[i], gt[i], gn[i],
                                 gg[i], gf[i]])
 
             corr = endf.get_intg_record(file_obj)
+            # Uncertainties of the parameters in the correlation matrix, some
+            # of which may be zero: DE, DGN, DGG and DGF (never DAJ and DGT)
+            columns = [0, 3, 4, 5][:corr.shape[0] // num_res]
+            par_unc = []
+            for i in range(num_res):
+                res_unc = values[i*12+6 : i*12+12]
+                par_unc.extend(res_unc[j] for j in columns)
             cov = np.diag(par_unc).dot(corr).dot(np.diag(par_unc))
 
         # Compatible resolved resonance format
@@ -691,19 +685,19 @@ class ReichMooreCovariance(ResonanceCovarianceRange):
             gg = values[3::12]
             gfa = values[4::12]
             gfb = values[5::12]
-            par_unc = []
-            for i in range(num_res):
-                res_unc = values[i*12+6 : i*12+12]
-                # Delete 0 values (not provided in evaluation)
-                res_unc = [x for x in res_unc if x != 0.0]
-                par_unc.extend(res_unc)
-
             records = []
             for i, E in enumerate(energy):
                 records.append([energy[i], spin[i], gn[i], gg[i],
                                 gfa[i], gfb[i]])
 
             corr = endf.get_intg_record(file_obj)
+            # Uncertainties of the parameters in the correlation matrix, some
+            # of which may be zero: DE, DGN, DGG, DGFA and DGFB (never DAJ)
+            columns = [0, 2, 3, 4, 5][:corr.shape[0] // num_res]
+            par_unc = []
+            for i in range(num_res):
+                res_unc = values[i*12+6 : i*12+12]
+                par_unc.extend(res_unc[j] for j in columns)
             cov = np.diag(par_unc).dot(corr).dot(np.diag(par_unc))
 
         # Create pandas DataFrame with resonacne data
-- 
2.43.0


From 7687c308b10983f02eff3702d44c428c237997f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:03 +0000
Subject: [PATCH 59/96] fix: resonance covariances with an uncertainty of the
 scattering radius

---
 ASAPy/data/resonance_covariance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 0e81c2a..49476db 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -399,6 +399,8 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
         target_spin = items[0]
         lcomp = items[3]  # Flag for compatibility 0, 1, 2 - 2 is compact form
         nls = items[4]  # number of l-values
+        if items[5] != 0:  # Skip the uncertainty of the scattering radius
+            endf.get_cont_record(file_obj)
 
         # Build covariance matrix for General Resolved Resonance Formats
         if lcomp == 1:
@@ -632,6 +634,8 @@ class ReichMooreCovariance(ResonanceCovarianceRange):
         target_spin = items[0]
         lcomp = items[3]  # Flag for compatibility 0, 1, 2 - 2 is compact form
         nls = items[4]  # Number of l-values
+        if items[5] != 0:  # Skip the uncertainties of the scattering radii
+            endf.get_list_record(file_obj)
 
         # Build covariance matrix for General Resolved Resonance Formats
         if lcomp == 1:
-- 
2.43.0


From dcea44b0bc0b7e47b1c10142f0eab81fec5050be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:40 +0000
Subject: [PATCH 60/96] fix: coherent elastic scattering uses the Bragg edges
 below the energy

It used the structure factor of the next edge and failed above the last one.
---
 ASAPy/data/thermal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index 7141212..fbd3dab 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -141,8 +141,10 @@ class CoherentElastic(EqualityMixin):
     def __call__(self, E):
         if isinstance(E, Iterable):
             E = np.asarray(E)
+        # Number of edges below E, the sum of their structure factors is the
+        # last of them (nothing is scattered below the first edge)
         idx = np.searchsorted(self.bragg_edges, E)
-        return self.factors[idx] / E
+        return np.where(idx > 0, self.factors[idx - 1], 0.0) / E
 
     def __len__(self):
         return len(self.bragg_edges)
-- 
2.43.0


From 53502dc0f26346f2856f2eb951540f5f81f38210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:40 +0000
Subject: [PATCH 61/96] fix: the name given to ThermalScattering.from_ace is
 used

---
 ASAPy/data/thermal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index fbd3dab..323c736 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -479,7 +479,8 @@ class ThermalScattering(EqualityMixin):
 
         # Get new name that is GND-consistent
         ace_name, xs = ace.name.split('.')
-        name = get_thermal_name(ace_name)
+        if name is None:
+            name = get_thermal_name(ace_name)
 
         # Assign temperature to the running list
         kTs = [ace.temperature*EV_PER_MEV]
-- 
2.43.0


From f87bcb7d738bc06a083002ec917ec17e9bd64190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:55 +0000
Subject: [PATCH 62/96] fix: multipole cross-sections at the upper end of the
 library

---
 ASAPy/data/multipole.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/data/multipole.py b/ASAPy/data/multipole.py
index e97605c..37fd317 100644
--- a/ASAPy/data/multipole.py
+++ b/ASAPy/data/multipole.py
@@ -418,6 +418,8 @@ class WindowedMultipole(EqualityMixin):
         # decreased by 1.  endw does not need to be decreased because
         # range(startw, endw) does not include endw.
         i_window = int(np.floor((sqrtE - sqrt(self.E_min)) / self.spacing))
+        # The upper end of the last window belongs to it.
+        i_window = min(i_window, self.windows.shape[0] - 1)
         startw = self.windows[i_window, 0] - 1
         endw = self.windows[i_window, 1]
 
-- 
2.43.0


From e233977f19c207a51d8e9049bcd39d4d8a7c0699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:55 +0000
Subject: [PATCH 63/96] fix: multipole cross-sections are not cut to integers
 if the first energy is outside the library

---
 ASAPy/data/multipole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/multipole.py b/ASAPy/data/multipole.py
index 37fd317..bbe703c 100644
--- a/ASAPy/data/multipole.py
+++ b/ASAPy/data/multipole.py
@@ -497,7 +497,7 @@ class WindowedMultipole(EqualityMixin):
 
         """
 
-        fun = np.vectorize(lambda x: self._evaluate(x, T))
+        fun = np.vectorize(lambda x: self._evaluate(x, T), otypes=[float]*3)
         return fun(E)
 
     def export_to_hdf5(self, path, mode='a', libver='earliest'):
-- 
2.43.0


From 91d333a70faabb44e4fca09421b5e78066971376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:58 +0000
Subject: [PATCH 64/96] fix: a decay of unknown kind is not read as beta and
 gamma decay

---
 ASAPy/data/decay.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ASAPy/data/decay.py b/ASAPy/data/decay.py
index 9373c2b..cb699af 100644
--- a/ASAPy/data/decay.py
+++ b/ASAPy/data/decay.py
@@ -59,6 +59,10 @@ def get_decay_modes(value):
         List of successive decays, e.g. ('beta-', 'neutron')
 
     """
+    if int(value) == 10:
+        # The logic below would treat 10.0 as [1, 0] rather than [10]
+        return [_DECAY_MODES[10][0]]
+
     return [_DECAY_MODES[int(x)][0] for x in
             str(value).strip('0').replace('.', '')]
 
-- 
2.43.0


From adda95fae4409ba5e553aec0395cce1abe282c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:58 +0000
Subject: [PATCH 65/96] fix: covariances of decay spectra can be read more than
 once

---
 ASAPy/data/decay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/decay.py b/ASAPy/data/decay.py
index cb699af..c2f90a7 100644
--- a/ASAPy/data/decay.py
+++ b/ASAPy/data/decay.py
@@ -446,7 +446,7 @@ class Decay(EqualityMixin):
                     if LCOV != 0:
                         items, values = get_list_record(file_obj)
                         ci['covariance_lb'] = items[3]
-                        ci['covariance'] = zip(values[0::2], values[1::2])
+                        ci['covariance'] = list(zip(values[0::2], values[1::2]))
 
                     spectrum['continuous'] = ci
 
-- 
2.43.0


From 2b3d1992fa350ba7d765cae2733142d684ed1b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:55 +0000
Subject: [PATCH 66/96] fix: zeros in tables with logarithmic interpolation do
 not give nan

---
 ASAPy/data/function.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 73d2bae..2ad3065 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -95,6 +95,16 @@ class Function1D(EqualityMixin, metaclass=ABCMeta):
                          + dataset.attrs['type'].decode() + "'")
 
 
+def _interpolate_log(t, y0, y1):
+    # Linear in log(y) at the fraction t of the way from y0 to y1. Next to a
+    # zero the logarithm is minus infinity, so that y is zero in between.
+    y = np.where(t == 0.0, y0, 0.0)
+    nonzero = (y0 != 0.0) & (y1 != 0.0)
+    y[nonzero] = y0[nonzero]*np.exp(
+        t[nonzero]*np.log(y1[nonzero]/y0[nonzero]))
+    return y
+
+
 class Tabulated1D(Function1D):
     """A one-dimensional tabulated function.
 
@@ -195,12 +205,13 @@ class Tabulated1D(Function1D):
 
             elif self.interpolation[k] == 4:
                 # Log-linear
-                y[contained] = yi*np.exp((xk - xi)/(xi1 - xi)*np.log(yi1/yi))
+                y[contained] = _interpolate_log(
+                    (xk - xi)/(xi1 - xi), yi, yi1)
 
             elif self.interpolation[k] == 5:
                 # Log-log
-                y[contained] = (yi*np.exp(np.log(xk/xi)/np.log(xi1/xi)
-                                *np.log(yi1/yi)))
+                y[contained] = _interpolate_log(
+                    np.log(xk/xi)/np.log(xi1/xi), yi, yi1)
 
         # In some cases, x values might be outside the tabulated region due only
         # to precision, so we check if they're close and set them equal if so.
-- 
2.43.0


From 395f096fa8c5efc07cc7cb98a45383ee02ce6b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:55 +0000
Subject: [PATCH 67/96] fix: the integral of tables with logarithmic
 interpolation and zeros is a number

---
 ASAPy/data/function.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 2ad3065..6da9b9f 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -311,7 +311,9 @@ class Tabulated1D(Function1D):
             elif self.interpolation[k] == 4:
                 # Log-linear
                 dx = x1 - x0
-                z = np.log(y1/y0)
+                zero = (y0 == 0.0) | (y1 == 0.0)
+                y0 = np.where(zero, 0.0, y0)
+                z = np.log(np.where(zero, 1.0, y1)/np.where(zero, 1.0, y0))
                 flat = z == 0.0  # (exp(z) - 1)/z -> 1
                 partial_sum[i_low:i_high] = y0*dx*np.where(
                     flat, 1.0, np.expm1(z)/np.where(flat, 1.0, z))
@@ -319,7 +321,9 @@ class Tabulated1D(Function1D):
             elif self.interpolation[k] == 5:
                 # Log-log
                 logx = np.log(x1/x0)
-                z = np.log(y1/y0) + logx
+                zero = (y0 == 0.0) | (y1 == 0.0)
+                y0 = np.where(zero, 0.0, y0)
+                z = np.log(np.where(zero, 1.0, y1)/np.where(zero, 1.0, y0)) + logx
                 flat = z == 0.0  # y ~ 1/x, where (exp(z) - 1)/z -> 1
                 partial_sum[i_low:i_high] = x0*y0*logx*np.where(
                     flat, 1.0, np.expm1(z)/np.where(flat, 1.0, z))
-- 
2.43.0


From ddec4c0a0a07d90fc8d65a0d5ee949873bf519ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:57 +0000
Subject: [PATCH 68/96] fix: MT 180 is (n,3n2a)

---
 ASAPy/data/reaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 11171ea..5cb4706 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -45,7 +45,7 @@ REACTION_NAME = {1: '(n,total)', 2: '(n,elastic)', 3: 'nonelastic', 4: '(n,level
                  170: '(n,5nd)', 171: '(n,6nd)', 172: '(n,3nt)', 173: '(n,4nt)',
                  174: '(n,5nt)', 175: '(n,6nt)', 176: '(n,2n3He)',
                  177: '(n,3n3He)', 178: '(n,4n3He)', 179: '(n,3n2p)',
-                 180: '(n,3n3a)', 181: '(n,3npa)', 182: '(n,dt)',
+                 180: '(n,3n2a)', 181: '(n,3npa)', 182: '(n,dt)',
                  183: '(n,npd)', 184: '(n,npt)', 185: '(n,ndt)',
                  186: '(n,np3He)', 187: '(n,nd3He)', 188: '(n,nt3He)',
                  189: '(n,nta)', 190: '(n,2n2p)', 191: '(n,p3He)',
-- 
2.43.0


From 14d478ebd2a8787042ee2458c66e5493d8f0ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:36 +0000
Subject: [PATCH 69/96] fix: the table of calcium in CaH2 made by NJOY is not
 taken for hydrogen

---
 ASAPy/data/thermal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index 323c736..7e0e04c 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -30,7 +30,7 @@ _THERMAL_NAMES = {
     'c_Be_in_BeO': ('bebeo', 'be-beo', 'be-o', 'be/o'),
     'c_C6H6': ('benz', 'c6h6'),
     'c_C_in_SiC': ('csic', 'c-sic'),
-    'c_Ca_in_CaH2': ('cah',),
+    'c_Ca_in_CaH2': ('cah', 'cacah2'),
     'c_D_in_D2O': ('dd2o', 'd-d2o', 'hwtr', 'hw'),
     'c_Fe56': ('fe', 'fe56', 'fe-56'),
     'c_Graphite': ('graph', 'grph', 'gr'),
-- 
2.43.0


From 677ca62d9856466e16449bfaf8a793840ec49670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:41 +0000
Subject: [PATCH 70/96] fix: refuse fission spectra if any of them has another
 number of points

---
 ASAPy/AceIO.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 022d955..c084092 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -165,9 +165,10 @@ class AceEditor:
                 raise Exception("Number of out energies in pdf {0} not the same as ace {1}".format(
                     len(pdf), len(fission_chi_prompt.energy_out)))
 
-            if len(fission_chi_prompt.energy_out[0]) != len(pdf[0]):
-                raise Exception("Number of bins in out energy in pdf {0} not the same as ace {1}".format(
-                    len(pdf[0]), len(fission_chi_prompt.energy_out[0])))
+            for distro, pdf_to_set in zip(fission_chi_prompt.energy_out, pdf):
+                if len(distro) != len(pdf_to_set):
+                    raise Exception("Number of bins in out energy in pdf {0} not the same as ace {1}".format(
+                        len(pdf_to_set), len(distro)))
 
             for idx, distro in enumerate(fission_chi_prompt.energy_out):
                 delta_pdf = pdf[idx] - distro.p
-- 
2.43.0


From 96853ba218a1c65e7143d6ab1118c0ec62739f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:51 +0000
Subject: [PATCH 71/96] fix: read stored Kalbach-Mann spectra that have
 negative probabilities

---
 ASAPy/data/kalbach_mann.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/kalbach_mann.py b/ASAPy/data/kalbach_mann.py
index 06e7925..9462468 100644
--- a/ASAPy/data/kalbach_mann.py
+++ b/ASAPy/data/kalbach_mann.py
@@ -233,7 +233,8 @@ class KalbachMann(angle_energy.AngleEnergy):
             # Create continuous distribution
             if m < n:
                 interp = INTERPOLATION_SCHEME[interpolation[i]]
-                eout_continuous = Tabular(data[0, j+m:j+n], data[1, j+m:j+n], interp)
+                eout_continuous = Tabular(data[0, j+m:j+n], data[1, j+m:j+n],
+                                          interp, ignore_negative=True)
                 eout_continuous.c = data[2, j+m:j+n]
 
             # If both continuous and discrete are present, create a mixture
-- 
2.43.0


From f9883c37ad7248035e8693b06a6dbbd8211643e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:31 +0000
Subject: [PATCH 72/96] fix: columns of compact correlation matrices with three
 and six digits

---
 ASAPy/data/endf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/endf.py b/ASAPy/data/endf.py
index 752f39d..b5a4d8a 100644
--- a/ASAPy/data/endf.py
+++ b/ASAPy/data/endf.py
@@ -309,8 +309,10 @@ def get_intg_record(file_obj):
     ndigit = int(items[2])
     npar = int(items[3])    # Number of parameters
     nlines = int(items[4])  # Lines to read
-    NROW_RULES = {2: 18, 3: 12, 4: 11, 5: 9, 6: 8}
+    NROW_RULES = {2: 18, 3: 13, 4: 11, 5: 9, 6: 8}
     nrow = NROW_RULES[ndigit]
+    # II and JJ are followed by a blank column, except for 6 digits (2I5,8I7)
+    start = 10 if ndigit == 6 else 11
 
     # read lines and build correlation matrix
     corr = np.identity(npar)
@@ -322,7 +324,8 @@ def get_intg_record(file_obj):
         for j in range(nrow):
             if jj+j >= ii:
                 break
-            element = _int_endf(line[11+(ndigit+1)*j:11+(ndigit+1)*(j+1)])
+            element = _int_endf(
+                line[start+(ndigit+1)*j:start+(ndigit+1)*(j+1)])
             if element > 0:
                 corr[ii, jj+j] = (element+0.5)/factor
             elif element < 0:
-- 
2.43.0


From cc8b38df1b2b755787268b8e943f2dd0b8dee493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:31 +0000
Subject: [PATCH 73/96] fix: probability tables can be assigned to neutron data

---
 ASAPy/data/neutron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 000c63f..2b4edb7 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -229,7 +229,7 @@ class IncidentNeutron(EqualityMixin):
     @urr.setter
     def urr(self, urr):
         cv.check_type('probability table dictionary', urr, MutableMapping)
-        for key, value in urr:
+        for key, value in urr.items():
             cv.check_type('probability table temperature', key, str)
             cv.check_type('probability tables', value, ProbabilityTables)
         self._urr = urr
-- 
2.43.0


From b09ae8b79f2e0099415476a22e4b73e3140c7f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:29 +0000
Subject: [PATCH 74/96] fix: penetrabilities of resonance parameters that were
 sorted or selected

---
 ASAPy/data/resonance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index ed81705..5facf4c 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -404,7 +404,7 @@ class MultiLevelBreitWigner(ResonanceRange):
         return mlbw
 
     def _prepare_resonances(self):
-        df = self.parameters.copy()
+        df = self.parameters.reset_index(drop=True)
 
         # Penetration and shift factors
         p = np.zeros(len(df))
@@ -666,7 +666,7 @@ class ReichMoore(ResonanceRange):
         return rm
 
     def _prepare_resonances(self):
-        df = self.parameters.copy()
+        df = self.parameters.reset_index(drop=True)
 
         # Penetration and shift factors
         p = np.zeros(len(df))
-- 
2.43.0


From 19b2140bcc08dc89896f5c23141d14821bd43f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:57 +0000
Subject: [PATCH 75/96] fix: tabulated angular distributions of file 6 in ENDF
 evaluations

---
 ASAPy/data/correlated.py | 10 ++++++++--
 ASAPy/data/reaction.py   |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ASAPy/data/correlated.py b/ASAPy/data/correlated.py
index 475e3d2..be38c9e 100644
--- a/ASAPy/data/correlated.py
+++ b/ASAPy/data/correlated.py
@@ -427,6 +427,7 @@ class CorrelatedAngleEnergy(AngleEnergy):
 
         """
         params, tab2 = get_tab2_record(file_obj)
+        lang = params[2]
         lep = params[3]
         ne = params[5]
         energy = np.zeros(ne)
@@ -450,10 +451,15 @@ class CorrelatedAngleEnergy(AngleEnergy):
                                    ignore_negative=True)
             energy_out.append(energy_out_i)
 
-            # Legendre coefficients used for angular distributions
+            # Angular distributions given as Legendre coefficients (LANG=1) or
+            # tabulated with interpolation scheme LANG - 10
             mu_i = []
             for j in range(n_energy_out):
-                mu_i.append(Legendre(values[j,1:]))
+                if lang > 10:
+                    mu_i.append(Tabular(values[j,2::2], values[j,3::2],
+                                        INTERPOLATION_SCHEME[lang - 10]))
+                else:
+                    mu_i.append(Legendre(values[j,1:]))
             mu.append(mu_i)
 
         return cls(tab2.breakpoints, tab2.interpolation, energy,
diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 5cb4706..4192395 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -131,7 +131,7 @@ def _get_products(ev, mt):
             file_obj.seek(position)
 
             lang = params[2]
-            if lang == 1:
+            if lang == 1 or lang > 10:
                 p.distribution = [CorrelatedAngleEnergy.from_endf(file_obj)]
             elif lang == 2:
                 p.distribution = [KalbachMann.from_endf(file_obj)]
-- 
2.43.0


From 30504b813d77741ecb5e4ce32fe61c81fafe264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:57 +0000
Subject: [PATCH 76/96] fix: distributions of partial fission from file 6

---
 ASAPy/data/neutron.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 2b4edb7..ae53612 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -775,11 +775,11 @@ class IncidentNeutron(EqualityMixin):
             pass
 
         # If first-chance, second-chance, etc. fission are present, check
-        # whether energy distributions were specified in MF=5. If not, copy the
+        # whether distributions were specified in MF=5 or MF=6. If not, copy the
         # energy distribution from MT=18.
         for mt, rx in data.reactions.items():
-            if mt in (19, 20, 21, 38):
-                if (5, mt) not in ev.section:
+            if mt in (19, 20, 21, 38) and 18 in data.reactions:
+                if not rx.products[0].distribution:
                     neutron = data.reactions[18].products[0]
                     rx.products[0].applicability = neutron.applicability
                     rx.products[0].distribution = neutron.distribution
-- 
2.43.0


From 2df55e39b530a9e695c62f85df70f749cd4e276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:57 +0000
Subject: [PATCH 77/96] fix: no further neutron for partial fission with
 angular distributions only

---
 ASAPy/data/reaction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 4192395..7860fa5 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -1171,8 +1171,8 @@ class Reaction(EqualityMixin):
                 for dist in neutron.distribution:
                     dist.angle = AngleDistribution.from_endf(ev, mt)
 
-            if mt in (18, 19, 20, 21, 38) and (5, mt) in ev.section:
-                # For fission reactions,
+            if mt in (18, 19, 20, 21, 38) and rx.products:
+                # For fission reactions, the neutrons are already known from nu
                 rx.products[0].applicability = neutron.applicability
                 rx.products[0].distribution = neutron.distribution
             else:
-- 
2.43.0


From f460ecf0156a3fcd9527b34caeef5492ef5ce57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:08 +0000
Subject: [PATCH 78/96] fix: resonance covariances of several isotopes

---
 ASAPy/data/resonance_covariance.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 49476db..dcdc50a 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -107,6 +107,7 @@ class ResonanceCovariances(Resonances):
         n_isotope = items[4]  # Number of isotopes
 
         ranges = []
+        position = 0
         for iso in range(n_isotope):
             items = endf.get_cont_record(file_obj)
             abundance = items[1]
@@ -128,8 +129,16 @@ class ResonanceCovariances(Resonances):
                     raise NotImplementedError(error)
 
                 if unresolved_flag in (0, 1):
-                    # Resolved resonance region
-                    resonance = resonances.ranges[j]
+                    # Resolved resonance region. The ranges of File 2, which
+                    # may have more of them, follow each other in the same order
+                    for k in range(position, len(resonances.ranges)):
+                        resonance = resonances.ranges[k]
+                        if [resonance.energy_min,
+                                resonance.energy_max] == items[0:2]:
+                            position = k + 1
+                            break
+                    else:
+                        resonance = resonances.ranges[j]
                     erange = _FORMALISMS[formalism].from_endf(ev, file_obj,
                                                               items, resonance)
                     ranges.append(erange)
-- 
2.43.0


From 84c6612f090229bb1772cb18a3cfc6929603d9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:14 +0000
Subject: [PATCH 79/96] fix: thermal data with elastic scattering at some
 temperatures could not be exported

---
 ASAPy/data/thermal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index 7e0e04c..8b64181 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -296,11 +296,11 @@ class ThermalScattering(EqualityMixin):
         for T in self.temperatures:
             Tg = g.create_group(T)
             # Write thermal elastic scattering
-            if self.elastic_xs:
+            if T in self.elastic_xs:
                 elastic_group = Tg.create_group('elastic')
 
                 self.elastic_xs[T].to_hdf5(elastic_group, 'xs')
-                if self.elastic_mu_out:
+                if T in self.elastic_mu_out:
                     elastic_group.create_dataset('mu_out',
                                                  data=self.elastic_mu_out[T])
 
-- 
2.43.0


From e23100c5a577ed271360680c6a840ef79eac8984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:51 +0000
Subject: [PATCH 80/96] fix: text with a nuclide name in front was taken for
 the nuclide

---
 ASAPy/data/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/data.py b/ASAPy/data/data.py
index 90d5903..26f0676 100644
--- a/ASAPy/data/data.py
+++ b/ASAPy/data/data.py
@@ -355,7 +355,7 @@ def zam(name):
 
     """
     try:
-        symbol, A, state = _GND_NAME_RE.match(name).groups()
+        symbol, A, state = _GND_NAME_RE.fullmatch(name).groups()
     except AttributeError:
         raise ValueError("'{}' does not appear to be a nuclide name in GND "
                          "format.".format(name))
-- 
2.43.0


From b9e41cf1e8c8801f2ac1c80ae8d7387d7722f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:44 +0000
Subject: [PATCH 81/96] fix: processing an evaluation of Am-242 gave the other
 state of the nuclide

make_ace adds 400 to the mass number of metastable states (the nndc scheme) but the
table was read back with the mcnp scheme, where 95242 and 95642 mean the reverse.
---
 ASAPy/data/neutron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index ae53612..331e971 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -822,7 +822,7 @@ class IncidentNeutron(EqualityMixin):
 
             # Create instance from ACE tables within library
             lib = Library(ace_file)
-            data = cls.from_ace(lib.tables[0])
+            data = cls.from_ace(lib.tables[0], 'nndc')
             for table in lib.tables[1:]:
                 data.add_temperature_from_ace(table)
 
-- 
2.43.0


From 900977b2d9d6466322f25552c2cdca9fc803c945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:24 +0000
Subject: [PATCH 82/96] fix: samples of a reaction with a single group could
 not be plotted

---
 ASAPy/XsecSampler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index d0707e6..04eee54 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -490,7 +490,7 @@ def plot_sampled_info(ace_file, h, zaid, mt, sample_df, sample_df_full_vals, zai
     y_for_plot = list(xsec['s.d.(1)'] ** 2)
     y_for_plot.append(y_for_plot[-1])
 
-    y2_for_plot = list(np.diag(np.cov(sample_df_full_vals)))
+    y2_for_plot = list(np.diag(np.atleast_2d(np.cov(sample_df_full_vals))))
     y2_for_plot.append(y2_for_plot[-1])
 
     fig, ax = plt.subplots()
@@ -552,7 +552,7 @@ def plot_sampled_info(ace_file, h, zaid, mt, sample_df, sample_df_full_vals, zai
 
     # make sure the elow isn't 0 so if we log the data it doesn't break..
     if xsec['e low'].values[-1] == 0:
-        elow_to_append = xsec['e low'].values[-2] / 2
+        elow_to_append = xsec['e high'].values[-1] / 2
     else:
         elow_to_append = xsec['e low'].values[-1]
 
@@ -564,9 +564,9 @@ def plot_sampled_info(ace_file, h, zaid, mt, sample_df, sample_df_full_vals, zai
 
     with np.errstate(all='ignore'):
         if corr_rel_diff:
-            corr_for_plot2 = np.abs(np.corrcoef(sample_df_full_vals) - corr.values)
+            corr_for_plot2 = np.abs(np.atleast_2d(np.corrcoef(sample_df_full_vals)) - corr.values)
         else:
-            corr_for_plot2 = np.corrcoef(sample_df_full_vals)
+            corr_for_plot2 = np.atleast_2d(np.corrcoef(sample_df_full_vals))
             corr_for_plot2[np.isnan(corr_for_plot2)] = 0
 
             # if the original corr was 0 on the diag, the sampled distro was not actually sampled so lets not plot that
-- 
2.43.0


From fafc8aef08f7ac166d5611ef4b7ecb2ff333cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:44 +0000
Subject: [PATCH 83/96] fix: range of the correlation plot left out values of
 the store

---
 ASAPy/XsecSampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 04eee54..49fc157 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -578,8 +578,8 @@ def plot_sampled_info(ace_file, h, zaid, mt, sample_df, sample_df_full_vals, zai
         vmin = -1.0
         vmax = 1.0
     else:
-        vmin = np.amax(corr.values)
-        vmax = np.amin(corr.values)
+        vmin = np.amin(corr.values)
+        vmax = np.amax(corr.values)
 
     if np.amax(corr_for_plot2) > vmax:
         vmax = np.amax(corr_for_plot2)
-- 
2.43.0


From 5d5ebb52e0075a46c1f1efc07bf9892f7ee4b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:30 +0000
Subject: [PATCH 84/96] fix: at the common end of two resonance ranges both
 were added

---
 ASAPy/data/function.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 6da9b9f..7ee158c 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -644,19 +644,27 @@ class ResonancesWithBackground(EqualityMixin):
 
         from .resonance import _RESOLVED
 
+        ends = set()
         for r in self.resonances:
             if not isinstance(r, _RESOLVED):
                 continue
 
+            # The end of a range can be the start of the next one, where only
+            # one of them counts
+            e_min, e_max = r.energy_min, r.energy_max
+            if e_min in ends:
+                e_min = np.nextafter(e_min, e_max)
+            ends.add(e_max)
+
             if isinstance(x, Iterable):
                 # Determine which energies are within resolved resonance range
-                within = (r.energy_min <= x) & (x <= r.energy_max)
+                within = (e_min <= x) & (x <= e_max)
 
                 # Get resonance cross sections and add to background
                 resonant_xs = r.reconstruct(x[within])
                 xs[within] += resonant_xs[self.mt]
             else:
-                if r.energy_min <= x <= r.energy_max:
+                if e_min <= x <= e_max:
                     resonant_xs = r.reconstruct(x)
                     xs += resonant_xs[self.mt]
 
-- 
2.43.0


From 93af82f96f3a4843c8107130ca845e98de78edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:30 +0000
Subject: [PATCH 85/96] fix: elastic scattering at 0 K left out resonances that
 are not in order of energy

The energies around each resonance end at the midpoints to its neighbours in the
list, which holds the resonances of one orbital momentum after those of another.
---
 ASAPy/data/neutron.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 331e971..30b146a 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -333,6 +333,11 @@ class IncidentNeutron(EqualityMixin):
                 e_peak = e_peak[in_range]
                 gamma = gamma[in_range]
 
+                # Resonances are given by orbital momentum
+                order = np.argsort(e_peak, kind='stable')
+                e_peak = e_peak[order]
+                gamma = gamma[order]
+
                 # Get midpoints between resonances (use min/max energy of
                 # resolved region as absolute lower/upper bound)
                 e_mid = np.concatenate(
-- 
2.43.0


From e1b82e1d6a8cd36b516a4faaa25bfd8484899dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:30 +0000
Subject: [PATCH 86/96] fix: elastic scattering at 0 K failed for nuclides
 without resonances in a resolved range

---
 ASAPy/data/neutron.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 30b146a..14888f3 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -307,14 +307,16 @@ class IncidentNeutron(EqualityMixin):
             raise ValueError('0 K data already exists for this nuclide.')
 
         data = type(self).from_endf(filename)
-        if data.resonances is not None:
+        # Ranges that give no more than the scattering radius and unresolved
+        # ones have no resonances
+        resolved = [rr for rr in data.resonances or ()
+                    if isinstance(rr, res._RESOLVED)]
+        if resolved:
             x = []
             y = []
-            for rr in data.resonances:
+            for rr in resolved:
                 if isinstance(rr, res.RMatrixLimited):
                     raise TypeError('R-Matrix Limited not supported.')
-                elif isinstance(rr, res.Unresolved):
-                    continue
 
                 # Get energies/widths for resonances
                 e_peak = rr.parameters['energy'].values
@@ -356,7 +358,7 @@ class IncidentNeutron(EqualityMixin):
                     energies.append(e_right[e_right < e_upper])
 
                 # Concatenate all points
-                energies = np.concatenate(energies)
+                energies = np.concatenate(energies) if energies else []
 
                 # Create 1000 equal log-spaced energies over RRR, combine with
                 # resonance peaks and half-height energies
-- 
2.43.0


From 7db20df8ba11ca4fc82ccd8bf4f531f43a11c370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:06 +0000
Subject: [PATCH 87/96] fix: ends of the resolved range at 0 K were outside of
 it by rounding

---
 ASAPy/data/neutron.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 14888f3..a96a282 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -2,7 +2,6 @@ import sys
 from collections import OrderedDict
 from collections.abc import Iterable, Mapping, MutableMapping
 from io import StringIO
-from math import log10
 from numbers import Integral, Real
 import os
 import shutil
@@ -362,7 +361,7 @@ class IncidentNeutron(EqualityMixin):
 
                 # Create 1000 equal log-spaced energies over RRR, combine with
                 # resonance peaks and half-height energies
-                e_log = np.logspace(log10(e_min), log10(e_max), 1000)
+                e_log = np.geomspace(e_min, e_max, 1000)
                 energies = np.union1d(e_log, energies)
 
                 # Linearize and thin cross section
-- 
2.43.0


From bb2ec7c756efcb2716f650ed69edd47b7d59588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:43 +0000
Subject: [PATCH 88/96] fix: cross-section at the upper end of a resonance
 range had the background from above it

---
 ASAPy/data/function.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 7ee158c..c6b03ea 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -656,15 +656,23 @@ class ResonancesWithBackground(EqualityMixin):
                 e_min = np.nextafter(e_min, e_max)
             ends.add(e_max)
 
+            # The background often has a step where the range ends, and what
+            # it is above does not belong to the range
+            below = np.nextafter(e_max, e_min)
+
             if isinstance(x, Iterable):
                 # Determine which energies are within resolved resonance range
                 within = (e_min <= x) & (x <= e_max)
+                at_end = within & (x == e_max)
+                xs[at_end] = self.background(np.where(at_end, below, x))[at_end]
 
                 # Get resonance cross sections and add to background
                 resonant_xs = r.reconstruct(x[within])
                 xs[within] += resonant_xs[self.mt]
             else:
                 if e_min <= x <= e_max:
+                    if x == e_max:
+                        xs = self.background(below)
                     resonant_xs = r.reconstruct(x)
                     xs += resonant_xs[self.mt]
 
-- 
2.43.0


From 170e9e93c20d8ba731c02be77ca91158650aa79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:47 +0000
Subject: [PATCH 89/96] fix: batch job of --plot-only sampled and wrote files

---
 ASAPy/XsecSampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 49fc157..842cb25 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -849,6 +849,9 @@ if __name__ == "__main__":
         else:
             make_plots = ''
 
+        if args.plot_only:
+            make_plots += ' --plot-only'
+
         if args.mpiproc > 1:
             mpi_cmd = 'mpiexec -n {0} '.format(args.mpiproc)
         else:
-- 
2.43.0


From 4de750868eab8fd26311f974224714e68e80eccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:07 +0000
Subject: [PATCH 90/96] fix: batch job failed for paths with spaces or other
 characters of the shell

---
 ASAPy/XsecSampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 842cb25..ea604c4 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -1,5 +1,6 @@
 import argparse
 import os
+import shlex
 
 import matplotlib.pyplot as plt
 import numpy as np
@@ -864,11 +865,11 @@ if __name__ == "__main__":
         else:
             mts = ''
 
-        python_to_run = mpi_cmd + 'python ' + os.path.abspath(__file__)
+        python_to_run = mpi_cmd + 'python ' + shlex.quote(os.path.abspath(__file__))
 
 
         qsub_helper.qsub_helper('sample_xsec.sh', [python_to_run], [
-            "{0} {1} {5} {2} -distribution {3} -num_oversamples {4} {6}".format(args.base_ace, args.cov_store,
+            "{0} {1} {5} {2} -distribution {3} -num_oversamples {4} {6}".format(shlex.quote(args.base_ace), shlex.quote(args.cov_store),
                                                                                              mts, args.distribution,
                                                                                              args.num_oversamples,
                                                                                              args.num_samples, make_plots)],
-- 
2.43.0


From f1f24e0dac220def882bb9321a0de997777c4d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:14 +0000
Subject: [PATCH 91/96] fix: data with arrays or uncertainties in lists and
 dictionaries could not be compared

---
 ASAPy/data/mixin.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/mixin.py b/ASAPy/data/mixin.py
index 11ac51a..abf7919 100644
--- a/ASAPy/data/mixin.py
+++ b/ASAPy/data/mixin.py
@@ -2,10 +2,25 @@ from numbers import Integral
 from warnings import warn
 
 import numpy as np
+from uncertainties import UFloat
 
 from . import checkvalue as cv
 
 
+def _equal(a, b):
+    """Whether two values are equal, whatever they are made of"""
+    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
+        return len(a) == len(b) and all(map(_equal, a, b))
+    elif isinstance(a, dict) and isinstance(b, dict):
+        return a.keys() == b.keys() and all(_equal(a[k], b[k]) for k in a)
+    elif isinstance(a, UFloat) and isinstance(b, UFloat):
+        return a.n == b.n and a.s == b.s
+    elif isinstance(a, EqualityMixin):
+        return a == b
+    else:
+        return np.array_equal(a, b)
+
+
 class EqualityMixin(object):
     """A Class which provides generic __eq__ and __ne__ functionality which
     can easily be inherited by downstream classes.
@@ -13,8 +28,8 @@ class EqualityMixin(object):
 
     def __eq__(self, other):
         if isinstance(other, type(self)):
-            for key, value in self.__dict__.items():
-                if not np.array_equal(value, other.__dict__.get(key)):
+            for key in self.__dict__.keys() | other.__dict__.keys():
+                if not _equal(self.__dict__.get(key), other.__dict__.get(key)):
                     return False
         else:
             return False
-- 
2.43.0


From 269aaf776d57a1f47708004d7c4701e8ccffaf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:35 +0000
Subject: [PATCH 92/96] fix: sum of a list and a checked list had the elements
 in the wrong order

---
 ASAPy/data/checkvalue.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/checkvalue.py b/ASAPy/data/checkvalue.py
index cbeac9c..330f826 100644
--- a/ASAPy/data/checkvalue.py
+++ b/ASAPy/data/checkvalue.py
@@ -301,7 +301,11 @@ class CheckedList(list):
         return new_instance
 
     def __radd__(self, other):
-        return self + other
+        check_type('CheckedList add operand', other, Iterable,
+                   self.expected_type)
+        new_instance = copy.copy(self)
+        new_instance[:0] = other
+        return new_instance
 
     def __iadd__(self, other):
         check_type('CheckedList add operand', other, Iterable,
-- 
2.43.0


From c97ca4b8d387d90c842ccb9f124c712929015228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:28 +0000
Subject: [PATCH 93/96] fix: neutrons of (n,2n) and the like from ENDF files 4
 and 5 had a yield of one

---
 ASAPy/data/reaction.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 7860fa5..e65d8ae 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -1,5 +1,6 @@
 from collections.abc import Iterable, Callable, MutableMapping
 from copy import deepcopy
+import re
 from numbers import Real, Integral
 from warnings import warn
 from io import StringIO
@@ -1176,6 +1177,11 @@ class Reaction(EqualityMixin):
                 rx.products[0].applicability = neutron.applicability
                 rx.products[0].distribution = neutron.distribution
             else:
+                # MF=4 and MF=5 give no yield: it is the number of neutrons that
+                # the reaction emits, e.g. two for (n,2n)
+                emitted = re.match(r'\(n,(\d+)n', REACTION_NAME.get(mt, ''))
+                if emitted:
+                    neutron.yield_ = Polynomial((int(emitted.group(1)),))
                 rx.products.append(neutron)
 
         if (8, mt) in ev.section:
-- 
2.43.0


From 03cc7ba97b014e719bb19ed3c080a395370b194f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:04 +0000
Subject: [PATCH 94/96] fix: reactions from ENDF files were all in the
 centre-of-mass frame

---
 ASAPy/data/reaction.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index e65d8ae..84857e4 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -1119,6 +1119,16 @@ class Reaction(EqualityMixin):
             params, rx.xs['0K'] = get_tab1_record(file_obj)
             rx.q_value = params[1]
 
+        # Reference frame of the secondary neutrons
+        if (6, mt) in ev.section:
+            rx.center_of_mass = get_head_record(StringIO(ev.section[6, mt]))[3] != 1
+        elif (4, mt) in ev.section:
+            file_obj = StringIO(ev.section[4, mt])
+            get_head_record(file_obj)
+            rx.center_of_mass = get_cont_record(file_obj)[3] == 2
+        elif (5, mt) in ev.section:
+            rx.center_of_mass = False
+
         # Get fission product yields (nu) as well as delayed neutron energy
         # distributions
         if mt in (18, 19, 20, 21, 38):
-- 
2.43.0


From 219de15a2c7cce3a5aa77d2eb938bc4ad4f788d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 95/96] fix: partial fission with the spectra of fission had a
 frame of its own

---
 ASAPy/data/neutron.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index a96a282..253575e 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -789,6 +789,7 @@ class IncidentNeutron(EqualityMixin):
                     neutron = data.reactions[18].products[0]
                     rx.products[0].applicability = neutron.applicability
                     rx.products[0].distribution = neutron.distribution
+                    rx.center_of_mass = data.reactions[18].center_of_mass
 
         # Read fission energy release (requires that we already know nu for
         # fission)
-- 
2.43.0


From 2ec92830296e48b6f70f6a18ceff5de233b5acb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 96/96] fix: N-body phase space of an ENDF file had no mass of
 the target and no Q value

---
 ASAPy/data/nbody.py    | 3 ++-
 ASAPy/data/reaction.py | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/nbody.py b/ASAPy/data/nbody.py
index 6879614..eee3fda 100644
--- a/ASAPy/data/nbody.py
+++ b/ASAPy/data/nbody.py
@@ -161,5 +161,6 @@ class NBodyPhaseSpace(AngleEnergy):
         items = get_cont_record(file_obj)
         total_mass = items[0]
         n_particles = items[5]
-        # TODO: get awr and Q value
+        # The atomic weight ratio and the Q value are not given here, they are
+        # those of the reaction
         return cls(total_mass, n_particles, 1.0, 0.0)
diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 84857e4..97d74da 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -176,7 +176,13 @@ def _get_products(ev, mt):
 
         elif law == 6:
             # N-body phase-space distribution
-            p.distribution = [NBodyPhaseSpace.from_endf(file_obj)]
+            nbody = NBodyPhaseSpace.from_endf(file_obj)
+            nbody.atomic_weight_ratio = ev.target['mass']
+            if (3, mt) in ev.section:
+                xs_file = StringIO(ev.section[3, mt])
+                get_head_record(xs_file)
+                nbody.q_value = get_tab1_record(xs_file)[0][1]
+            p.distribution = [nbody]
 
         elif law == 7:
             # Laboratory energy-angle distribution
-- 
2.43.0

