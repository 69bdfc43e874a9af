From 797b9c9ed99a60aa0f18f58132667cbff87b6008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 01/67] fix: convective subcolumn fractions with a single
 subcolumn raised ValueError (2-D data, 3-D dims)

---
 emc2/simulator/subcolumn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 303666c..11011e9 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -54,7 +54,8 @@ def set_convective_sub_col_frac(model, hyd_type, N_columns=None, use_rad_logic=T
        print(f"num_subcolumns == 1 (subcolumn generator turned off); setting subcolumns frac "
               f"fields for convective {hyd_type} based on q > {q_trunc_thresh} kg/kg")
        model.ds[("conv_frac_subcolumns_" + hyd_type)] = xr.DataArray(
-           np.where(model.ds[model.q_names_convective[hyd_type]].values > q_trunc_thresh, 1., 0.),
+           np.where(np.tile(model.ds[model.q_names_convective[hyd_type]].values,
+                            (1, 1, 1)) > q_trunc_thresh, 1., 0.),
            dims=('subcolumn', my_dims[0], my_dims[1]))
     else:  # num_subcolumns > 1
         if use_rad_logic:
-- 
2.43.0


From ee8c163e7ccefce36b9f572698c2afe23076a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 02/67] fix: stratiform cloud lost under a mixed-phase layer
 when only one phase is present below

---
 emc2/simulator/subcolumn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 11011e9..6f74378 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -632,8 +632,8 @@ def _allocate_strat_sub_col(tt, cld_2_assigns, I_min, I_max, conv_profs,
                     rand_locs = _randperm(overlying_num.min(), size=cld_2_assign[I_min])
                     inds = locals()["overlying_locs%d" % (Iover_min + 1)][rand_locs]
                     strat_profs[I_min, inds, j] = True
-                    inds = locals()["overlying_locs%d" % (Iover_min + 1)]
-                    strat_profs[I_max, inds, j] = True
+                inds = locals()["overlying_locs%d" % (Iover_min + 1)]
+                strat_profs[I_max, inds, j] = True
                 cld_2_assign[I_min] = 0
                 cld_2_assign[I_max] -= overlying_num[Iover_min]
 
-- 
2.43.0


From 420eedd4810e1f58a4988401b9cc5fb9e823f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 03/67] fix: stratiform allocation without convection ignored
 the subcolumn count already set in the model

---
 emc2/simulator/subcolumn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 6f74378..f2ac452 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -143,6 +143,8 @@ def set_stratiform_sub_col_frac(model, N_columns=None, use_rad_logic=True, paral
     else:
         if model.num_subcolumns == 0:
             model.ds['subcolumn'] = xr.DataArray(np.arange(0, N_columns), dims='subcolumn')
+        elif N_columns is None:
+            N_columns = model.num_subcolumns
         conv_profs = np.zeros((N_columns, *model.ds[model.strat_frac_names["cl"]].shape),
                               dtype=bool)
     subcolumn_dims = ("subcolumn", *model.ds[model.strat_frac_names_for_rad["cl"]].dims)
-- 
2.43.0


From e382309d2f226d567b13a3af589474386f9b98dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 04/67] fix: chunked parallel distribution of sub-grid cloud
 water misordered and duplicated time columns

---
 emc2/simulator/subcolumn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index f2ac452..7e822d2 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -546,16 +546,16 @@ def set_q_n(model, hyd_type, is_conv=True, qc_flag=False, inv_rel_var=None, use_
                     my_tuple = tt_bag.map(_distribute_cl_q_n_sub_cols).compute()
                 else:
                     my_tuple = []
-                    j = t_dim - 1
-                    while j >= 0:
-                        if j + chunk > t_dim:
+                    j = 0
+                    while j < t_dim:
+                        if j + chunk >= t_dim:
                             ind_max = t_dim
                         else:
                             ind_max = j + chunk
                         print("Stage 1 of 2: Processing columns %d-%d out of %d" % (j, ind_max, t_dim))
                         tt_bag = db.from_sequence(np.arange(j, ind_max, 1))
                         my_tuple += tt_bag.map(_distribute_cl_q_n_sub_cols).compute()
-                        j -= chunk
+                        j += chunk
             else:
                 my_tuple = [x for x in map(_distribute_cl_q_n_sub_cols, np.arange(0, t_dim, 1))]
 
-- 
2.43.0


From 13436023f85bdc46f66048436c1c93c59eaf5d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 05/67] fix: sub-grid cloud water distribution never ended for
 cloudy cells holding no condensate

---
 emc2/simulator/subcolumn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 7e822d2..6c67b78 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -770,7 +770,7 @@ def _distribute_cl_q_n(tt, sub_data_frac, inv_rel_var, N_columns, tot_hyd_in_sub
             while not valid_vals:  # Finding first index w/ random value sum > cell mean --> randomize up to there
                 counter_4_valid += 1
                 valid_vals = (q_ic_mean[tt, j] * tot_hyd_in_sub[tt, j] -
-                              rand_gamma_vals[:-counter_4_valid].sum()) > 0
+                              rand_gamma_vals[:-counter_4_valid].sum()) >= 0
             q_profs[hyd_in_sub_loc[randlocs[:-counter_4_valid]], j] = (
                 rand_gamma_vals[:-counter_4_valid])
             q_profs[hyd_in_sub_loc[randlocs[-counter_4_valid:]], j] = (
-- 
2.43.0


From d13450bcc94f131513f5a05c7ff829c979c126f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 06/67] fix: single-subcolumn number concentration was infinite
 or NaN in clear cells

---
 emc2/simulator/subcolumn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 6c67b78..c14a764 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -519,8 +519,7 @@ def set_q_n(model, hyd_type, is_conv=True, qc_flag=False, inv_rel_var=None, use_
             dims=model.ds[frac_fieldname].dims)
         if not is_conv:
             model.ds[n_name] = xr.DataArray(
-                np.tile(model.ds[model.N_field[hyd_type]].astype('float64').values / data_frac, (1, 1, 1)),
-                                            dims=model.ds[frac_fieldname].dims)
+                np.where(np.isnan(N_profs), 0, N_profs), dims=model.ds[frac_fieldname].dims)
     else:
         if qc_flag:
 
-- 
2.43.0


From 816693a09488c13546a279a838a80ae66e2185a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 07/67] fix: gaseous radar attenuation used the frequency in Hz
 in formulas written for GHz

---
 emc2/simulator/attenuation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index 93c1d50..abe6380 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -60,23 +60,24 @@ def calc_radar_atm_attenuation(instrument, model):
     p_temp = quantity(model.ds[p_field].values, model.ds[p_field].attrs["units"]).to("hPa").magnitude
 
     column_ds = model.ds
+    freq = instrument.freq * 1e-9  # GHz
 
     rho_wv = column_ds[q_field] * 1e3 * (p_temp * 1e2) / (instrument.R_d * t_temp)
     three_hundred_t = 300. / t_temp
     gamma_l = 2.85 * (p_temp / 1013.) * (three_hundred_t)**0.626 * \
         (1 + 0.018 * rho_wv * t_temp / p_temp)
-    kappa_wv = (2 * instrument.freq)**2 * rho_wv * (three_hundred_t)**1.5 * gamma_l * \
+    kappa_wv = (2 * freq)**2 * rho_wv * (three_hundred_t)**1.5 * gamma_l * \
         (three_hundred_t) * np.exp(-644 / t_temp) * \
-        1 / ((494.4 - instrument.freq**2)**2 + 4 * instrument.freq**2) * gamma_l**2 + 1.2e-6
+        1 / ((494.4 - freq**2)**2 + 4 * freq**2) * gamma_l**2 + 1.2e-6
     f0 = 60.
 
     gamma_0 = 0.59 * (1 + 3.1e-3 * (333 - p_temp))
     gamma_0[column_ds[p_field].values >= 333] = 0.59
     gamma_0[column_ds[p_field].values < 25.] = 1.18
     gamma_l = gamma_0 * (p_temp / 1013.) * three_hundred_t**0.85
-    kappa_o2 = (1.1e-2 * instrument.freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
-        gamma_l * (1. / ((instrument.freq - f0)**2 + gamma_l**2) + 1. /
-                   (instrument.freq**2 + gamma_l**2))
+    kappa_o2 = (1.1e-2 * freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
+        gamma_l * (1. / ((freq - f0)**2 + gamma_l**2) + 1. /
+                   (freq**2 + gamma_l**2))
 
     column_ds['kappa_o2'] = xr.DataArray(kappa_o2, dims=model.ds[t_field].dims)
     column_ds['kappa_o2'].attrs["long_name"] = "Gaseous attenuation due to O2"
-- 
2.43.0


From ddcfd5949fb94d8b71f9d589491ece3bf669c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 08/67] fix: oxygen line-width regimes were chosen from the raw
 pressure field instead of hPa

---
 emc2/simulator/attenuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index abe6380..acec062 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -72,8 +72,8 @@ def calc_radar_atm_attenuation(instrument, model):
     f0 = 60.
 
     gamma_0 = 0.59 * (1 + 3.1e-3 * (333 - p_temp))
-    gamma_0[column_ds[p_field].values >= 333] = 0.59
-    gamma_0[column_ds[p_field].values < 25.] = 1.18
+    gamma_0[p_temp >= 333] = 0.59
+    gamma_0[p_temp < 25.] = 1.18
     gamma_l = gamma_0 * (p_temp / 1013.) * three_hundred_t**0.85
     kappa_o2 = (1.1e-2 * freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
         gamma_l * (1. / ((freq - f0)**2 + gamma_l**2) + 1. /
-- 
2.43.0


From c3082b4fab5100a05fc64792d95631c729551411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 09/67] fix: misplaced factors in the water vapor attenuation
 line shape (gave dB/km unrelated to vapor content)

---
 emc2/simulator/attenuation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index acec062..b6b2756 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -66,9 +66,9 @@ def calc_radar_atm_attenuation(instrument, model):
     three_hundred_t = 300. / t_temp
     gamma_l = 2.85 * (p_temp / 1013.) * (three_hundred_t)**0.626 * \
         (1 + 0.018 * rho_wv * t_temp / p_temp)
-    kappa_wv = (2 * freq)**2 * rho_wv * (three_hundred_t)**1.5 * gamma_l * \
-        (three_hundred_t) * np.exp(-644 / t_temp) * \
-        1 / ((494.4 - freq**2)**2 + 4 * freq**2) * gamma_l**2 + 1.2e-6
+    kappa_wv = 2 * freq**2 * rho_wv * (three_hundred_t)**1.5 * gamma_l * \
+        (three_hundred_t * np.exp(-644 / t_temp) /
+         ((494.4 - freq**2)**2 + 4 * freq**2 * gamma_l**2) + 1.2e-6)
     f0 = 60.
 
     gamma_0 = 0.59 * (1 + 3.1e-3 * (333 - p_temp))
-- 
2.43.0


From 481b9bba20aef54911f0bfbfc68cd09f94edccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 10/67] fix: empirical radar attenuation only kept the liquid
 water of the last hydrometeor class

---
 emc2/simulator/radar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 9cce000..f939fff 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -193,9 +193,9 @@ def calc_radar_empirical(instrument, model, is_conv, p_values, t_values, z_value
     model.ds["sub_col_Ze_tot_%s" % cloud_str] = xr.DataArray(
         np.zeros(Dims), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
 
+    WC_tot = np.zeros(Dims)
     for hyd_type in hyd_types:
         q_field = "%s_q_subcolumns_%s" % (cloud_str, hyd_type)
-        WC_tot = np.zeros(Dims)
         WC = model.ds["%s_q_subcolumns_%s" % (cloud_str, hyd_type)] * p_values / \
             (instrument.R_d * (t_values + 273.15)) * 1e3
         # Fox and Illingworth (1997)
-- 
2.43.0


From 98f966e4acfd0dabc7aa29b381de0259ab169526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 11/67] fix: microphysics radar attenuation only kept the
 extinction of the last hydrometeor class

---
 emc2/simulator/radar_moments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index f939fff..c006e3c 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -539,6 +539,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     moment_denom_tot = np.zeros(Dims)
     V_d_numer_tot = np.zeros(Dims)
     sigma_d_numer_tot = np.zeros(Dims)
+    hyd_ext = np.zeros(Dims)
 
     for hyd_type in hyd_types:
         print(f"Generating strat radar moemnts for hyd class {hyd_type} "
@@ -661,7 +662,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 np.stack([x[0] for x in my_tuple], axis=1))
             moment_denom_tot = np.nan_to_num(
                 np.stack([x[1] for x in my_tuple], axis=1))
-            hyd_ext = np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
+            hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
 
             model.ds["sub_col_Ze_cl_strat"][:, :, :] = np.stack(
                 [x[3] for x in my_tuple], axis=1)
@@ -704,7 +705,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
 
             V_d_numer_tot += np.nan_to_num(np.stack([x[0] for x in my_tuple], axis=1))
             moment_denom_tot += np.nan_to_num(np.stack([x[1] for x in my_tuple], axis=1))
-            hyd_ext = np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
+            hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
             model.ds["sub_col_Ze_%s_strat" % hyd_type][:, :, :] = np.stack([x[3] for x in my_tuple], axis=1)
             model.ds["sub_col_Vd_%s_strat" % hyd_type][:, :, :] = np.stack([x[4] for x in my_tuple], axis=1)
             if calc_spectral_width:
-- 
2.43.0


From 9c8506c5017261896cfc453517e15388c8457076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 12/67] fix: total Doppler moments dropped every class listed
 before cloud liquid

---
 emc2/simulator/radar_moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index c006e3c..b3aecc9 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -658,9 +658,9 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 my_tuple = [x for x in map(
                     _calc_liquid, np.arange(0, Dims[1], 1))]
             
-            V_d_numer_tot = np.nan_to_num(
+            V_d_numer_tot += np.nan_to_num(
                 np.stack([x[0] for x in my_tuple], axis=1))
-            moment_denom_tot = np.nan_to_num(
+            moment_denom_tot += np.nan_to_num(
                 np.stack([x[1] for x in my_tuple], axis=1))
             hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
 
@@ -805,7 +805,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 else:
                     sigma_d_numer = [x for x in map(_calc_sigma_d_liq, np.arange(0, Dims[1], 1))]
 
-                sigma_d_numer_tot = np.nan_to_num(np.stack([x[0] for x in sigma_d_numer], axis=1))
+                sigma_d_numer_tot += np.nan_to_num(np.stack([x[0] for x in sigma_d_numer], axis=1))
             else:
                 sub_frac_arr = model.ds["strat_frac_subcolumns_%s" % hyd_type].values
                 _calc_sigma = lambda x: _calc_sigma_d_tot(
-- 
2.43.0


From 7ff5c0d5201a9f0f01aa2b3973e5b95c4f38778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 13/67] fix: total spectral width used the air density
 correction of the last class for every class

---
 emc2/simulator/radar_moments.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index b3aecc9..51290ff 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -778,6 +778,11 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
             n_names = "strat_n_subcolumns_%s" % hyd_type
             total_hydrometeor = model.ds[frac_names] * model.ds[n_names]
 
+            # air density correction of this class (as for the class moments above)
+            rhoa_corr = np.ones(model.ds["rho_a"].shape)
+            if model.Vd_rhoa_scaling_ref.get(hyd_type) is not None:
+                rhoa_corr = (model.Vd_rhoa_scaling_ref[hyd_type] / model.ds["rho_a"].values) ** 0.54
+
             Vd_tot = model.ds["sub_col_Vd_tot_strat"].values
             if hyd_type == "cl":
 
-- 
2.43.0


From 2097ee80f2f9b5a0bdaeb3606aab909d0a7cfe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 14/67] fix: repeated microphysics radar calculation added to
 the totals (dBZ) of the previous call

---
 emc2/simulator/radar_moments.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 51290ff..33e5c13 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -540,20 +540,15 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     V_d_numer_tot = np.zeros(Dims)
     sigma_d_numer_tot = np.zeros(Dims)
     hyd_ext = np.zeros(Dims)
+    # totals always start from zero (the dataset may hold those of a previous call, in dBZ)
+    for tot_name in ["sub_col_Ze_tot_strat", "sub_col_Vd_tot_strat", "sub_col_sigma_d_tot_strat"]:
+        model.ds[tot_name] = xr.DataArray(np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
 
     for hyd_type in hyd_types:
         print(f"Generating strat radar moemnts for hyd class {hyd_type} "
               f"({model.rad_scheme_family} rad; {model.mcphys_scheme} mcphys; Mie={int(mie_for_ice)})")
         frac_names = "strat_frac_subcolumns_%s" % hyd_type
         n_names = "strat_n_subcolumns_%s" % hyd_type
-        if not np.isin("sub_col_Ze_tot_strat", [x for x in model.ds.keys()]):
-            model.ds["sub_col_Ze_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_Vd_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_sigma_d_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-
         model.ds["sub_col_Ze_%s_strat" % hyd_type] = xr.DataArray(
             np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_Vd_%s_strat" % hyd_type] = xr.DataArray(
-- 
2.43.0


From 10e0705c927dfacaa8dc389947e4c3e26d12c95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 15/67] fix: repeated microphysics lidar calculation added to
 the totals of the previous call

---
 emc2/simulator/lidar_moments.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index fb06db6..460d240 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -579,18 +579,14 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
         raise ValueError(f"Unknown radiation scheme family: {model.rad_scheme_family}")
 
     Dims = model.ds["strat_q_subcolumns_cl"].values.shape
+    # totals always start from zero (the dataset may hold those of a previous call)
+    for tot_name in ["sub_col_beta_p_tot_strat", "sub_col_alpha_p_tot_strat", "sub_col_OD_tot_strat"]:
+        model.ds[tot_name] = xr.DataArray(np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
     for hyd_type in hyd_types:
         frac_names = "strat_frac_subcolumns_%s" % hyd_type
         n_names = "strat_n_subcolumns_%s" % hyd_type
         print(f"Generating strat lidar variables for hyd class {hyd_type} "
               f"({model.rad_scheme_family} rad; {model.mcphys_scheme} mcphys; Mie={int(mie_for_ice)})")
-        if not np.isin("sub_col_beta_p_tot_strat", [x for x in model.ds.keys()]):
-            model.ds["sub_col_beta_p_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_alpha_p_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_OD_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_beta_p_%s_strat" % hyd_type] = xr.DataArray(
             np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_alpha_p_%s_strat" % hyd_type] = xr.DataArray(
-- 
2.43.0


From d4efd29ef5da76fd2cc5c39833a941a393e2c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 16/67] fix: lidar molecular transmittance ignored OD_from_sfc
 (always taken from the surface)

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 460d240..f9c6436 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -800,7 +800,7 @@ def calc_lidar_moments(instrument, model, is_conv,
     z_values = z_temp.to('meter').magnitude
     del p_temp, t_temp, z_temp
 
-    model = calc_theory_beta_m(model, instrument.wavelength)
+    model = calc_theory_beta_m(model, instrument.wavelength, OD_from_sfc=OD_from_sfc)
     beta_m = np.tile(model.ds['sigma_180_vol'].values, (model.num_subcolumns, 1, 1))
     T = np.tile(model.ds['tau'].values, (model.num_subcolumns, 1, 1))
 
-- 
2.43.0


From 80d20f353b3ac842c18827235872ae4d9a7b7e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 17/67] fix: calc_LDR_and_ext ignored its LDR_per_hyd argument

---
 emc2/simulator/lidar_moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index f9c6436..64dd971 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -122,7 +122,8 @@ def calc_LDR_and_ext(model, ext_OD=4., OD_from_sfc=True, LDR_per_hyd=None, hyd_t
 
         for hyd_type in hyd_types:
             beta_p_key = "sub_col_beta_p_%s_%s" % (hyd_type, cloud_str)
-            numerator += model.ds[beta_p_key].fillna(0) * model.LDR_per_hyd[hyd_type].magnitude
+            numerator += model.ds[beta_p_key].fillna(0) * \
+                getattr(LDR_per_hyd[hyd_type], "magnitude", LDR_per_hyd[hyd_type])
             denominator += model.ds[beta_p_key].fillna(0)
         denominator_no_zeros = np.where(denominator > 0, denominator, np.nan)
         model.ds["sub_col_LDR_%s" % cloud_str] = numerator / denominator_no_zeros
-- 
2.43.0


From fa297eabe69694943df7b4595a074da5a7a9bc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 18/67] fix: P3 microphysics calculation failed the second time
 the same instrument was simulated

---
 emc2/simulator/lidar_moments.py | 12 ++++++------
 emc2/simulator/radar_moments.py | 14 +++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 64dd971..5b08816 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -632,12 +632,12 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["p_diam"].values),
                         instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
-                i_calc_kws = {"beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
-                              "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
-                              "Fr_in": model.ds["Fr"].values,
-                              "rho_r_in": model.ds["rho_r"].values,
-                              "mie_for_ice": mie_for_ice,
-                             }  # allocate only once
+            i_calc_kws = {"beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
+                          "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
+                          "Fr_in": model.ds["Fr"].values,
+                          "rho_r_in": model.ds["rho_r"].values,
+                          "mie_for_ice": mie_for_ice,
+                         }  # allocate only once
             calc_kws = i_calc_kws
         else:
             calc_kws = None
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 33e5c13..cd9c799 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -607,13 +607,13 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["p_diam"].values),
                         instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
-                i_calc_kws = {"vt": model.interpobj["single"]["vt"],
-                              "beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
-                              "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
-                              "Fr_in": model.ds["Fr"].values,
-                              "rho_r_in": model.ds["rho_r"].values,
-                              "mie_for_ice": mie_for_ice,
-                             }  # allocate only once
+            i_calc_kws = {"vt": model.interpobj["single"]["vt"],
+                          "beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
+                          "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
+                          "Fr_in": model.ds["Fr"].values,
+                          "rho_r_in": model.ds["rho_r"].values,
+                          "mie_for_ice": mie_for_ice,
+                         }  # allocate only once
             v_tmp = None
             calc_kws = i_calc_kws
         else:
-- 
2.43.0


From 8fa035263d35d2a2849b8880e20e4640476870ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 19/67] fix: bulk (radiation logic) scattering at the top model
 level was negative (layer thickness of minus the height)

---
 emc2/simulator/lidar_moments.py |  8 +++++---
 emc2/simulator/radar_moments.py | 10 +++++-----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 5b08816..8c018e6 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -363,9 +363,11 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
     model.ds['sub_col_OD_tot_%s' % cloud_str] = xr.DataArray(
         np.zeros(Dims), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
 
-    rhoa_dz = np.tile(np.abs(np.diff(p_values, axis=1, append=0.)) / instrument.g,
-                      (model.num_subcolumns, 1, 1))
-    dz = np.tile(np.diff(z_values, axis=1, append=0.), (model.num_subcolumns, 1, 1))
+    # the top level has no layer above it: use the thickness of the layer right below
+    dp = np.diff(p_values, axis=1, append=2 * p_values[:, -1:] - p_values[:, -2:-1])
+    rhoa_dz = np.tile(np.abs(dp) / instrument.g, (n_subcolumns, 1, 1))
+    dz = np.tile(np.diff(z_values, axis=1, append=2 * z_values[:, -1:] - z_values[:, -2:-1]),
+                 (n_subcolumns, 1, 1))
     for hyd_type in hyd_types:
         rad_A = True  # calculate total surface area using classic derivation from r_eff and q_i
         if hyd_type[-1] == 'l':  # liquid hydrometeors
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index cd9c799..0f47610 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -305,11 +305,11 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
     model.ds["sub_col_Ze_tot_%s" % cloud_str] = xr.DataArray(
         np.zeros(Dims), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
     hyd_ext = np.zeros(Dims)
-    rhoa_dz = np.tile(
-        np.abs(np.diff(p_values, axis=1, append=0.)) / instrument.g,
-        (n_subcolumns, 1, 1))
-    dz = np.tile(
-        np.diff(z_values, axis=1, append=0.), (n_subcolumns, 1, 1))
+    # the top level has no layer above it: use the thickness of the layer right below
+    dp = np.diff(p_values, axis=1, append=2 * p_values[:, -1:] - p_values[:, -2:-1])
+    rhoa_dz = np.tile(np.abs(dp) / instrument.g, (n_subcolumns, 1, 1))
+    dz = np.tile(np.diff(z_values, axis=1, append=2 * z_values[:, -1:] - z_values[:, -2:-1]),
+                 (n_subcolumns, 1, 1))
 
     for hyd_type in hyd_types:
         rad_A = True  # calculate total surface area using classic derivation from r_eff and q_i
-- 
2.43.0


From 68877ddc6321d135c686d00b5926b3c858286ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 20/67] fix: fixed droplet dispersion of ModelE was not used
 (the class is named ModelE3)

---
 emc2/simulator/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/psd.py b/emc2/simulator/psd.py
index c310935..1118f11 100644
--- a/emc2/simulator/psd.py
+++ b/emc2/simulator/psd.py
@@ -99,7 +99,7 @@ def calc_mu_lambda(model, hyd_type="cl",
     column_ds = model.ds
 
     if calc_dispersion is None:
-        if model.model_name in ["ModelE", "DHARMA"]:
+        if model.model_name in ["ModelE", "ModelE3", "DHARMA"]:
             calc_dispersion = False
         else:
             calc_dispersion = True
-- 
2.43.0


From 4de1081c1145a1147e53d8eeb1a9f988fdb9b93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 21/67] fix: NSSL Doppler calculation failed (undefined
 calc_kws, swapped velocity arguments, scalar density) and had upward fall
 speeds

---
 emc2/simulator/radar_moments.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 0f47610..e2149d0 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -586,13 +586,15 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
 
         num_subcolumns = model.num_subcolumns
         rhoe = None
-        if model.mcphys_scheme == "nssl":
+        if model.mcphys_scheme.lower() == "nssl":
+            calc_kws = None
             rhoe = model.Rho_hyd[hyd_type]
             if rhoe == 'variable':
                 rhoe = model.ds[model.variable_density[hyd_type]].values[:]
-                v_tmp = 'variable'
+                v_tmp = None  # set per grid cell
             else:
-                v_tmp = calc_velocity_nssl(p_diam, rhoe, hyd_type)
+                v_tmp = -calc_velocity_nssl(p_diam, rhoe.magnitude, hyd_type)
+                rhoe = None
         elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
             if instrument.instrument_str not in model.interpobj["single"].keys():
                 model.interpobj["single"][instrument.instrument_str] = {}  # gen scattering interp objects
@@ -754,13 +756,15 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 beta_p = instrument.mie_table[hyd_type]["beta_p"].values
                 alpha_p = instrument.mie_table[hyd_type]["alpha_p"].values
             rhoe = None
-            if model.mcphys_scheme == "nssl":
+            if model.mcphys_scheme.lower() == "nssl":
+                calc_kws = None
                 rhoe = model.Rho_hyd[hyd_type]
                 if rhoe == 'variable':
                     rhoe = model.ds[model.variable_density[hyd_type]].values[:]
-                    v_tmp = 'variable'
+                    v_tmp = None  # set per grid cell
                 else:
-                    v_tmp = calc_velocity_nssl(p_diam, rhoe, hyd_type)
+                    v_tmp = -calc_velocity_nssl(p_diam, rhoe.magnitude, hyd_type)
+                    rhoe = None
             elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
                 v_tmp = None
                 calc_kws = i_calc_kws
@@ -1069,9 +1073,11 @@ def _calc_sigma_d_tot_cl(tt, N_0, lambdas, mu, instrument,
             instrument.mie_table[hyd_type]["beta_p"].values,
             (num_subcolumns, 1)) * N_D.T
         moment_denom = np.trapz(Calc_tmp, x=p_diam, axis=1).astype('float64')
-        if mcphys_scheme.lower() in ["mg2", "mg", "morrison", "nssl", "p3"]:  # power-law velocity schemes for liquid
+        if mcphys_scheme.lower() == "nssl":
+            v_tmp = -calc_velocity_nssl(p_diam, None, hyd_type).astype('float64')
+        else:  # power-law velocity schemes for liquid
             v_tmp = vel_param_a[hyd_type] * p_diam ** vel_param_b[hyd_type]
-        v_tmp = -v_tmp.magnitude.astype('float64')
+            v_tmp = -v_tmp.magnitude.astype('float64')
         v_use = v_tmp * rhoa_corr_single
         Calc_tmp2 = (v_use - np.tile(Vd_tot[:, tt, k], (num_diam, 1)).T) ** 2 * Calc_tmp.astype('float64')
         sigma_d_numer[:, k] = np.trapz(Calc_tmp2, x=p_diam, axis=1)
@@ -1120,7 +1126,7 @@ def _calc_sigma_d_tot(tt, num_subcolumns, v_tmp, N_0, lambdas, mu,
         v_use = v_tmp
         if rhoe is not None:
             if mcphys_scheme.lower() in ["nssl"]:  # NSSL parameterization for fall velocity
-                v_use = calc_velocity_nssl(rhoe[tt, k], p_diam, hyd_type)
+                v_use = -calc_velocity_nssl(p_diam, rhoe[tt, k], hyd_type)
         v_use = v_use * rhoa_corr_single
         Calc_tmp2 = (v_use - np.tile(vd_tot[:, tt, k], (num_diam, 1)).T) ** 2 * Calc_tmp.astype('float64')
         Calc_tmp2 = np.trapz(Calc_tmp2, x=p_diam, axis=1)
@@ -1238,7 +1244,7 @@ def _calculate_other_observables(tt, total_hydrometeor, N_0, lambdas, mu,
             Zv[:, k] = np.nan
         if rhoe is not None:
             if mcphys_scheme.lower() in ["nssl"]:  # NSSL parameterization for fall velocity
-                v_tmp = calc_velocity_nssl(rhoe[tt, k], p_diam, hyd_type)
+                v_tmp = -calc_velocity_nssl(p_diam, rhoe[tt, k], hyd_type)
         v_use = v_tmp * rhoa_corr_single
         Calc_tmp2 = Calc_tmp * v_use
         V_d_numer = np.trapz(Calc_tmp2, axis=1, x=p_diam)
-- 
2.43.0


From e04cbb657a13fdeb475640188724b08f2e1dafc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 22/67] fix: minimum detectable reflectivity took heights
 stored in km as if in m

---
 emc2/simulator/attenuation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index b6b2756..8730a35 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -23,7 +23,9 @@ def calc_radar_Ze_min(instrument, model, ref_rng=1000):
         The Model class that will store the Ze_min profile.
     """
 
-    Ze_min = instrument.Z_min_1km + 20 * np.log10(model.ds[model.z_field]) - 20 * np.log10(ref_rng)
+    z_values = quantity(model.ds[model.z_field].values,
+                        model.ds[model.z_field].attrs.get("units", "m")).to("meter").magnitude
+    Ze_min = instrument.Z_min_1km + 20 * np.log10(z_values) - 20 * np.log10(ref_rng)
     model.ds['Ze_min'] = xr.DataArray(Ze_min, dims=model.ds[model.z_field].dims)
     model.ds["Ze_min"].attrs["long_name"] = "Minimum discernable radar reflectivity factor"
     model.ds["Ze_min"].attrs["units"] = 'dBZ'
-- 
2.43.0


From 78ad45644b3fadb30762e77303b84ed7a91ebc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 23/67] fix: bulk radar attenuation was lost (NaN) beyond any
 cell without CESM liquid or P3 ice

---
 emc2/simulator/radar_moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index e2149d0..ef3c4d0 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -433,7 +433,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qext_bulk.flatten())
             interp_vals = interpolator(mu_array[rel_locs], lambda_array[rel_locs])
             np.place(ext_tmp, rel_locs, interp_vals)
-            hyd_ext += ext_tmp * A_hyd
+            hyd_ext += np.nan_to_num(ext_tmp * A_hyd)  # no extinction in clear cells
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
             print("3-D interpolation of bulk ice radar backscattering using Fr-rho_r-q_norm values")
             back_tmp = np.where(sub_frac_arr, (scat_dict["Q_back_bulk"] * instrument.wavelength ** 4) /
@@ -443,13 +443,13 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             model.ds["sub_col_Ze_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
                 back_tmp * A_hyd,
                 dims=model.ds["%s_q_subcolumns_ci" % cloud_str].dims)
-            hyd_ext += ext_tmp * A_hyd
+            hyd_ext += np.nan_to_num(ext_tmp * A_hyd)  # no extinction in clear cells
         else:
             model.ds["sub_col_Ze_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
                 (np.interp(re_array, r_eff_bulk, Qback_bulk) * A_hyd * instrument.wavelength ** 4) /
                 (instrument.K_w * np.pi ** 5) * 1e-6,
                 dims=model.ds["%s_q_subcolumns_ci" % cloud_str].dims)
-            hyd_ext += np.interp(re_array, r_eff_bulk, Qext_bulk) * A_hyd
+            hyd_ext += np.nan_to_num(np.interp(re_array, r_eff_bulk, Qext_bulk) * A_hyd)
 
         model.ds["sub_col_Ze_tot_%s" % cloud_str] += model.ds["sub_col_Ze_%s_%s" % (
             hyd_type, cloud_str)].fillna(0)
-- 
2.43.0


From 239537ba86f8900f65a23d10c380f4e70e90bb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 24/67] fix: bulk liquid scattering was NaN at the lower bound
 of the droplet slope parameter (unscaled triangulation)

---
 emc2/simulator/lidar_moments.py | 6 ++++--
 emc2/simulator/radar_moments.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 8c018e6..02efc9e 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -477,11 +477,13 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
             rel_locs = sub_frac_arr == 1
             back_tmp = np.full(mu_array.shape, np.nan, dtype=float)
             ext_tmp = np.copy(back_tmp)
-            interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qback_bulk.flatten())
+            interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qback_bulk.flatten(),
+                                                rescale=True)
             interp_vals = interpolator(mu_array[rel_locs], lambda_array[rel_locs])
             np.place(back_tmp, rel_locs, interp_vals)
             print("2-D interpolation of bulk liq lidar extinction using mu-lambda values")
-            interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qext_bulk.flatten())
+            interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qext_bulk.flatten(),
+                                                rescale=True)
             interp_vals = interpolator(mu_array[rel_locs], lambda_array[rel_locs])
             np.place(ext_tmp, rel_locs, interp_vals)
             model.ds["sub_col_beta_p_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index ef3c4d0..400f587 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -419,7 +419,8 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
         if np.all([np.isin(hyd_type, ["cl", "pl"]), model.rad_scheme_family in ["CESM", "P3"]]):
             print("2-D interpolation of bulk liq radar backscattering using mu-lambda values")
             rel_locs = sub_frac_arr == 1
-            interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qback_bulk.flatten())
+            interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qback_bulk.flatten(),
+                                                rescale=True)
             interp_vals = interpolator(mu_array[rel_locs], lambda_array[rel_locs])
             back_tmp = np.full(mu_array.shape, np.nan, dtype=float)
             ext_tmp = np.copy(back_tmp)
@@ -430,7 +431,8 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
                 back_tmp * A_hyd,
                 dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
             print("2-D interpolation of bulk liq radar extinction using mu-lambda values")
-            interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qext_bulk.flatten())
+            interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qext_bulk.flatten(),
+                                                rescale=True)
             interp_vals = interpolator(mu_array[rel_locs], lambda_array[rel_locs])
             np.place(ext_tmp, rel_locs, interp_vals)
             hyd_ext += np.nan_to_num(ext_tmp * A_hyd)  # no extinction in clear cells
-- 
2.43.0


From d8c007b65f15b2364be69fdf5d48ebbbcd9694c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 25/67] fix: particle size distribution took the mixing ratio
 (kg/kg) as water content per volume

---
 emc2/simulator/psd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/psd.py b/emc2/simulator/psd.py
index 1118f11..c952358 100644
--- a/emc2/simulator/psd.py
+++ b/emc2/simulator/psd.py
@@ -110,7 +110,8 @@ def calc_mu_lambda(model, hyd_type="cl",
     else:
         N_name = "conv_n_subcolumns_%s" % hyd_type
         q_name = "conv_q_subcolumns_%s" % hyd_type
-    q_use = column_ds[q_name].values
+    # water content in kg m-3 (N below is per volume as well)
+    q_use = (column_ds[q_name] * column_ds["rho_a"]).transpose(*column_ds[q_name].dims).values
     N_use = column_ds[N_name].values
     
     if model.Rho_hyd[hyd_type] == 'variable':    
-- 
2.43.0


From 1e8f26531bbae2bd8d81cd8c0a6c5c108fa62320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 26/67] fix: NSSL graupel and hail drag coefficient jumped with
 density (missing normalization of the density ramp)

---
 emc2/simulator/psd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/psd.py b/emc2/simulator/psd.py
index c952358..95642cc 100644
--- a/emc2/simulator/psd.py
+++ b/emc2/simulator/psd.py
@@ -24,13 +24,13 @@ def calc_velocity_nssl(dmax, rhoe, hyd_type):
         return 10 * (1 - np.exp(-516.575 * dmax))
     if hyd_type.lower() == "gr":
         cd = np.fmax(0.45, np.fmin(1.2,
-                0.45 + 0.55 * (800 - np.fmax(170, np.fmin(800, rhoe)))))
+                0.45 + 0.55 * (800 - np.fmax(170, np.fmin(800, rhoe))) / (800 - 170)))
         vt = np.sqrt(4.0 * rhoe * 9.81 / (3.0 * cd * rhoair_800mb)) \
             * np.sqrt(dmax)
         return vt
     elif hyd_type.lower() == "ha":
         cd = np.fmax(0.45, np.fmin(1.2,
-                0.45 + 0.55 * (800 - np.fmax(500, np.fmin(800, rhoe)))))
+                0.45 + 0.55 * (800 - np.fmax(500, np.fmin(800, rhoe))) / (800 - 500)))
         vt = np.sqrt(4.0 * rhoe * 9.81 / (3.0 * cd * rhoair_800mb)) \
             * np.sqrt(dmax)
         return vt
-- 
2.43.0


From 0e97900e73c83f5dec6f4a9577e4182275409e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 27/67] fix: empirical lidar calculation mixed dimensional and
 plain extinction (DimensionalityError)

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 02efc9e..fd8e3b8 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -257,7 +257,7 @@ def calc_lidar_empirical(instrument, model, is_conv, p_values, t_values, z_value
             empr_array = model.ds[model.strat_re_fields[hyd_type]].values
         if hyd_type == "cl" or hyd_type == "pl":
             model.ds["sub_col_alpha_p_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
-                (3 * WC) / (2 * model.Rho_hyd[hyd_type] * 1e-6 *
+                (3 * WC) / (2 * model.Rho_hyd[hyd_type].magnitude * 1e-6 *
                             np.tile(empr_array, (model.num_subcolumns, 1, 1))),
                 dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
         else:
-- 
2.43.0


From 4fe1dd8e3ab298010c3251fca8e86fcf692695aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 28/67] fix: bulk lidar calculation failed for ice classes of
 variable density (units mixed with plain arrays)

---
 emc2/simulator/lidar_moments.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index fd8e3b8..5e3ca4b 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -420,10 +420,11 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
                         i_calc_kws["Fr_in"], i_calc_kws["rho_r_in"], i_calc_kws["q_norm_in"]))
                     re_array = np.tile(re_interped * rhoi_eff_interped / rho_b, (model.num_subcolumns, 1, 1))
         else:
-            rho_b = instrument.rho_i  # bulk ice
-            rho_hyd = model.Rho_hyd[hyd_type]
-            if rho_hyd == 'variable':
+            rho_b = instrument.rho_i.magnitude  # bulk ice
+            if model.Rho_hyd[hyd_type] == 'variable':
                 rho_hyd = model.ds[model.variable_density[hyd_type]].values
+            else:
+                rho_hyd = model.Rho_hyd[hyd_type].magnitude
             if model.fluffy is None:
                 re_array = np.tile(model.ds[re_fields[hyd_type]].values, (n_subcolumns, 1, 1))
             else:
-- 
2.43.0


From ed5d0682952cada836d488d27704cf5b51e9e14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 29/67] fix: bulk liquid scattering was NaN for droplets
 exactly on the edge of the mu-lambda table

---
 emc2/simulator/lidar_moments.py |  6 +++---
 emc2/simulator/radar_moments.py | 31 +++++++++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 5e3ca4b..33eb956 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -7,7 +7,7 @@ from scipy.interpolate import RegularGridInterpolator
 
 from .attenuation import calc_theory_beta_m
 from .psd import calc_and_set_psd_params
-from .radar_moments import _set_p3_tiled_arrays
+from .radar_moments import _interp_mu_lambda, _set_p3_tiled_arrays
 from ..core.instrument import ureg, quantity
 
 
@@ -480,12 +480,12 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
             ext_tmp = np.copy(back_tmp)
             interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qback_bulk.flatten(),
                                                 rescale=True)
-            interp_vals = interpolator(mu_array[rel_locs], lambda_array[rel_locs])
+            interp_vals = _interp_mu_lambda(interpolator, mu_b, lambda_b, mu_array[rel_locs], lambda_array[rel_locs])
             np.place(back_tmp, rel_locs, interp_vals)
             print("2-D interpolation of bulk liq lidar extinction using mu-lambda values")
             interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qext_bulk.flatten(),
                                                 rescale=True)
-            interp_vals = interpolator(mu_array[rel_locs], lambda_array[rel_locs])
+            interp_vals = _interp_mu_lambda(interpolator, mu_b, lambda_b, mu_array[rel_locs], lambda_array[rel_locs])
             np.place(ext_tmp, rel_locs, interp_vals)
             model.ds["sub_col_beta_p_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
                 back_tmp * A_hyd,
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 400f587..24d72b4 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -421,7 +421,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             rel_locs = sub_frac_arr == 1
             interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qback_bulk.flatten(),
                                                 rescale=True)
-            interp_vals = interpolator(mu_array[rel_locs], lambda_array[rel_locs])
+            interp_vals = _interp_mu_lambda(interpolator, mu_b, lambda_b, mu_array[rel_locs], lambda_array[rel_locs])
             back_tmp = np.full(mu_array.shape, np.nan, dtype=float)
             ext_tmp = np.copy(back_tmp)
             np.place(back_tmp, rel_locs,
@@ -433,7 +433,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             print("2-D interpolation of bulk liq radar extinction using mu-lambda values")
             interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qext_bulk.flatten(),
                                                 rescale=True)
-            interp_vals = interpolator(mu_array[rel_locs], lambda_array[rel_locs])
+            interp_vals = _interp_mu_lambda(interpolator, mu_b, lambda_b, mu_array[rel_locs], lambda_array[rel_locs])
             np.place(ext_tmp, rel_locs, interp_vals)
             hyd_ext += np.nan_to_num(ext_tmp * A_hyd)  # no extinction in clear cells
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
@@ -1279,3 +1279,30 @@ def _set_p3_tiled_arrays(tt, calc_kws, Dims, p_max_dim, include_vt=True):
         tiled_arr["vt"] *= (-1.0)
     return tiled_arr
 
+
+def _interp_mu_lambda(interpolator, mu_b, lambda_b, mu_in, lambda_in):
+    """
+    Interpolate a bulk LUT given vs. the PSD mu and lambda parameters. Values exactly on the edge of the
+    LUT (e.g., limited by the model's lambda bounds) can be missed by the interpolator due to rounding
+    (resulting in nan), and are therefore evaluated slightly towards the center of the LUT.
+
+    Parameters
+    ----------
+    interpolator: LinearNDInterpolator
+        The LUT interpolator.
+    mu_b, lambda_b: np.ndarray
+        The coordinates of the LUT entries.
+    mu_in, lambda_in: np.ndarray
+        The values to interpolate to.
+
+    Returns
+    -------
+    interp_vals: np.ndarray
+        Interpolated values (nan outside the LUT).
+    """
+    interp_vals = interpolator(mu_in, lambda_in)
+    missed = np.isnan(interp_vals)
+    interp_vals[missed] = interpolator(
+        mu_in[missed] + 1e-9 * (mu_b.mean() - mu_in[missed]),
+        lambda_in[missed] + 1e-9 * (lambda_b.mean() - lambda_in[missed]))
+    return interp_vals
-- 
2.43.0


From 980d71484ca8aeae3d2e02fbcade5061a36f4c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 30/67] fix: radar microphysics calculation of P3 ice alone
 failed (no PSD fields to drop)

---
 emc2/simulator/radar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 24d72b4..536091f 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -841,7 +841,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     else: 
         print("User chose to skip spectral width calculations")
  
-    model.ds = model.ds.drop_vars(("N_0", "lambda", "mu"))
+    model.ds = model.ds.drop_vars(("N_0", "lambda", "mu"), errors="ignore")  # not set for P3 ice
 
     if calc_spectral_width:
         model.ds["sub_col_sigma_d_tot_strat"] = xr.DataArray(np.sqrt(sigma_d_numer_tot / moment_denom_tot),
-- 
2.43.0


From e503406c20430a6f5c1378339e446435bbfea514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 31/67] fix: COSP emulation compared temperatures stored in
 other units with Kelvin limits

---
 emc2/simulator/classification.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index 76d1037..1e7906b 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -2,6 +2,7 @@ import xarray as xr
 import numpy as np
 
 from ..core import Instrument, Model
+from ..core.instrument import quantity
 
 
 def lidar_classify_phase(instrument, model, beta_p_phase_thresh=None,
@@ -243,6 +244,9 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
     ATB_mol = np.tile(model.ds['sigma_180_vol'].values * (1. + 0.0284) * model.ds['tau'].values,
                       (model.num_subcolumns, 1, 1))
 
+    t_temp = quantity(model.ds[model.T_field].values, model.ds[model.T_field].attrs["units"]).to("kelvin").magnitude
+    T_K = np.tile(t_temp, (model.num_subcolumns, 1, 1))
+
     beta_p_allhyd = np.zeros_like(model.ds['sub_col_beta_p_tot_strat'].values)
     beta_p_cross_allhyd = np.zeros_like(model.ds['sub_col_beta_p_tot_strat'].values)
     OD_allhyd = np.zeros_like(model.ds['sub_col_beta_p_tot_strat'].values)
@@ -301,12 +305,8 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
         reflective_mask = np.where(np.logical_and(SR > undef_SR_thresh, reflective_mask == 1),
                                    0, reflective_mask)
 
-        phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
-                                                     (model.num_subcolumns, 1, 1)) > 273.15,
-                              phase_mask > 0), 1, phase_mask)
-        phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
-                                                     (model.num_subcolumns, 1, 1)) < 233.15,
-                              phase_mask > 0), 2, phase_mask)
+        phase_mask = np.where(np.logical_and(T_K > 273.15, phase_mask > 0), 1, phase_mask)
+        phase_mask = np.where(np.logical_and(T_K < 233.15, phase_mask > 0), 2, phase_mask)
         phase_mask = np.where(np.logical_and(reflective_mask > 0, phase_mask > 0), 3, phase_mask)
         if convert_zeros_to_nan:
             phase_mask = np.where(phase_mask == 0, np.nan, phase_mask)
@@ -363,12 +363,8 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
     reflective_mask = np.where(np.logical_and(SR_allhyd > undef_SR_thresh, reflective_mask == 1),
                                0, reflective_mask)
 
-    phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
-                                                 (model.num_subcolumns, 1, 1)) > 273.15,
-                          phase_mask > 0), 1, phase_mask)
-    phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
-                                                 (model.num_subcolumns, 1, 1)) < 233.15,
-                          phase_mask > 0), 2, phase_mask)
+    phase_mask = np.where(np.logical_and(T_K > 273.15, phase_mask > 0), 1, phase_mask)
+    phase_mask = np.where(np.logical_and(T_K < 233.15, phase_mask > 0), 2, phase_mask)
     phase_mask = np.where(np.logical_and(reflective_mask > 0, phase_mask > 0), 3, phase_mask)
     if convert_zeros_to_nan:
         phase_mask = np.where(phase_mask == 0, np.nan, phase_mask)
-- 
2.43.0


From 3ca27a19dc26c56065d8d00899fdb46093678552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:04 +0000
Subject: [PATCH 32/67] fix: the ref_rng argument of make_simulated_data was
 not used (misspelled)

---
 emc2/simulator/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/main.py b/emc2/simulator/main.py
index 32f7e3b..e4a872d 100644
--- a/emc2/simulator/main.py
+++ b/emc2/simulator/main.py
@@ -171,7 +171,7 @@ def make_simulated_data(model, instrument, N_columns, do_classify=False, unstack
         # Radar Simulator
         if instrument.instrument_class.lower() == "radar":
             print("Generating radar moments...")
-            if 'reg_rng' in kwargs.keys():
+            if 'ref_rng' in kwargs.keys():
                 ref_rng = kwargs['ref_rng']
                 del kwargs['ref_rng']
             else:
-- 
2.43.0


From 611942466efd3d0df7ecac8f70cebb172bf80908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:38 +0000
Subject: [PATCH 33/67] fix: a model already set to one subcolumn got cloud
 flags by rounding the fraction instead of from q

---
 emc2/simulator/subcolumn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index c14a764..380232b 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -50,7 +50,7 @@ def set_convective_sub_col_frac(model, hyd_type, N_columns=None, use_rad_logic=T
     if model.num_subcolumns == 0:
         model.ds['subcolumn'] = xr.DataArray(np.arange(0, N_columns), dims='subcolumn')
 
-    if N_columns == 1:
+    if model.num_subcolumns == 1:
        print(f"num_subcolumns == 1 (subcolumn generator turned off); setting subcolumns frac "
               f"fields for convective {hyd_type} based on q > {q_trunc_thresh} kg/kg")
        model.ds[("conv_frac_subcolumns_" + hyd_type)] = xr.DataArray(
@@ -148,7 +148,7 @@ def set_stratiform_sub_col_frac(model, N_columns=None, use_rad_logic=True, paral
         conv_profs = np.zeros((N_columns, *model.ds[model.strat_frac_names["cl"]].shape),
                               dtype=bool)
     subcolumn_dims = ("subcolumn", *model.ds[model.strat_frac_names_for_rad["cl"]].dims)
-    if N_columns == 1:
+    if model.num_subcolumns == 1:
         print(f"num_subcolumns == 1 (subcolumn generator turned off); setting subcolumns frac "
               f"fields to 1 for startiform cl and ci based on q > {q_trunc_thresh} kg/kg")
         model.ds['strat_frac_subcolumns_cl'] = xr.DataArray(
-- 
2.43.0


From 3f10d11d6322fe898f875682a822546a69036a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 34/67] fix: loaded subcolumns stayed bound to the (closed)
 file, failing once it was moved or saved to again

---
 emc2/core/model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index ff4a8ff..497fd66 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -584,9 +584,8 @@ class Model():
         file_name: str
             Name of the file to save.
         """
-        my_file = xr.open_dataset(file_name)
-        self.ds = xr.merge([self.ds, my_file])
-        my_file.close()
+        with xr.open_dataset(file_name) as my_file:
+            self.ds = xr.merge([self.ds, my_file.load()])
 
     @staticmethod
     def set_array_to_valid_range(arr_in, grid_in):
-- 
2.43.0


From 10fe8c5503fa0f17da13dbad1f2c7b823f0b10cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 35/67] fix: RL, HSRL and CALIOP could not be made with a given
 data path (TypeError)

---
 emc2/core/instruments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/core/instruments.py b/emc2/core/instruments.py
index 2218e28..018425f 100644
--- a/emc2/core/instruments.py
+++ b/emc2/core/instruments.py
@@ -212,7 +212,7 @@ class RL(Instrument):
         self.eps_liq = (1.357247 + 2.4198595e-9j) ** 2
     
         # Load mie tables
-        self.load_instrument_scat_files(*args)  # load scattering files for this instrument
+        self.load_instrument_scat_files(True, *args)  # load scattering files for this instrument
 
 
 class HSRL(Instrument):
@@ -243,7 +243,7 @@ class HSRL(Instrument):
         self.eps_liq = (1.337273 + 1.7570744e-9j) ** 2
 
         # Load mie tables
-        self.load_instrument_scat_files(*args)  # load scattering files for this instrument
+        self.load_instrument_scat_files(True, *args)  # load scattering files for this instrument
 
 
 class MPL(HSRL):
@@ -353,4 +353,4 @@ class CALIOP(Instrument):
         self.eps_liq = (1.337273 + 1.7570744e-9j) ** 2
 
         # Load mie tables
-        self.load_instrument_scat_files(*args)  # load scattering files for this instrument
+        self.load_instrument_scat_files(True, *args)  # load scattering files for this instrument
-- 
2.43.0


From 2ff677e9b407d89ab56ed679ebb521cfc3f2147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 36/67] fix: a tuple or list as time_range failed in the model
 loaders

---
 emc2/core/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 497fd66..a31fd8f 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -685,7 +685,7 @@ class ModelE(Model):
 
         # crop specific model output time range (if requested)
         if time_range is not None:
-            if np.issubdtype(time_range.dtype, np.datetime64):
+            if np.issubdtype(np.asarray(time_range).dtype, np.datetime64):
                 super()._crop_time_range(time_range)
             else:
                 raise RuntimeError("input time range is not in the required datetime64 data type")
@@ -829,7 +829,7 @@ class E3SMv1(Model):
 
             # crop specific model output time range (if requested)
             if time_range is not None:
-                if np.issubdtype(time_range.dtype, np.datetime64):
+                if np.issubdtype(np.asarray(time_range).dtype, np.datetime64):
                     if time_dim == "ncol":
                         super()._crop_time_range(time_range, alter_coord="time")
                     else:
@@ -1489,7 +1489,7 @@ class DHARMA(Model):
 
         # crop specific model output time range (if requested)
         if time_range is not None:
-            if np.issubdtype(time_range.dtype, np.datetime64):
+            if np.issubdtype(np.asarray(time_range).dtype, np.datetime64):
                 super()._crop_time_range(time_range)
             else:
                 raise RuntimeError("input time range is not in the required datetime64 data type")
-- 
2.43.0


From 6c322fc8700f543a0b71edc9b87150298ef6e8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 37/67] fix: the Ni-normalized ice content of E3SM P3 was not
 multiplied by the air density

---
 emc2/core/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index a31fd8f..65c4697 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -884,10 +884,10 @@ class E3SMv1(Model):
                         self.ds[self.p3_kws["q_rim_name"]].values / self.ds[self.p3_kws["rim_vol_name"]].values)
                     self.ds["rho_r"] = xr.DataArray(
                         rho_r, dims=dims, attrs={"units": "kg/m^3", "long_name": "Rime density"})
-                    self.ds["qi_norm"] = xr.DataArray(
-                        (self.ds[self.q_names_stratiform[hyd]].values /
+                    self.ds["qi_norm"] = xr.DataArray(  # Ni is per volume, hence multiplying q by the air density
+                        (self.ds[self.q_names_stratiform[hyd]].values * self.ds["rho_a"].values /
                         self.ds[self.strat_frac_names[hyd]].values) / self.ds[self.p3_kws["in_cld_Ni_name"]].values,
-                        dims=dims, attrs={"units": "m^3", "long_name": "Ni-normalized in-cloud ice water content"})
+                        dims=dims, attrs={"units": "kg", "long_name": "Ni-normalized in-cloud ice water content"})
 
 
             self.permute_dims_for_processing()  # Consistent dim order (time x height).
-- 
2.43.0


From 7cf9f58c42174d0658926cf62fe28782e035c883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 38/67] fix: WRF time_range was compared with the time index
 instead of the time

---
 emc2/core/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 65c4697..d1fc6ed 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -1372,7 +1372,9 @@ class WRF(Model):
         
         # crop specific model output time range (if requested)
         if time_range is not None:
-            super()._crop_time_range(time_range)
+            self.ds = self.ds.assign_coords(XTIME=("Time", ds["XTIME"].values))
+            super()._crop_time_range(time_range, alter_coord="XTIME")
+            self.ds = self.ds.drop_vars("XTIME")
 
         # stack dimensions in the case of a regional output or squeeze lat/lon dims if exist and len==1
         super().check_and_stack_time_lat_lon(file_path=file_path)
-- 
2.43.0


From 7c02b6b22abffc63b9430bee2055f32f61653c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 39/67] fix: DHARMA output with decoded times failed to load
 (dates cast to float)

---
 emc2/core/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index d1fc6ed..1dbb165 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -1481,6 +1481,8 @@ class DHARMA(Model):
         else:
             self.ds = xr.open_dataset(file_path)
             for variable in self.ds.variables.keys():
+                if np.issubdtype(self.ds[variable].dtype, np.datetime64):
+                    continue
                 my_attrs = self.ds[variable].attrs
                 self.ds[variable] = self.ds[variable].astype('float64')
                 self.ds[variable].attrs = my_attrs
-- 
2.43.0


From 1b4375d12fad69090350df7c1645c9894b9ba61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 40/67] fix: Mie tables were not at the requested diameters,
 and water mixed up scattering and backscattering

---
 emc2/scattering/mie_scattering.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index 27a4a2f..59cd2fb 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -2,7 +2,7 @@ import numpy as np
 import xarray as xr
 
 try:
-    from PyMieScatt import MieQ_withDiameterRange
+    from PyMieScatt import AutoMieQ
     PYMIESCAT_AVAILABLE = True
 except ModuleNotFoundError:
     PYMIESCAT_AVAILABLE = False
@@ -52,7 +52,7 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     Parameters
     ----------
     diams: array floats
-        Particle diameter in meters
+        Particle diameter in microns
     wavelength: float
         Wavelength in cm
     temperature: float
@@ -81,18 +81,18 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     m = calc_microwave_ref_index(wavelength, temperature)
     nMedium = 1 + 1e-6 * (77.6 * pressure /
                           (temperature + 273.15 + 3.75e-5 * pressure / (temperature + 273.15)**2))
-    diams, qext, qsca, qabs, g, qpr, qback, qratio = MieQ_withDiameterRange(
-        m, wavelength * 1e7, nMedium=nMedium, nd=len(diams),
-        diameterRange=(diams.min() * 1000., diams.max() * 1000.))
+    diams = np.asarray(diams) * 1000.  # nm
+    qext, qsca, qabs, g, qpr, qback, qratio = np.array(
+        [AutoMieQ(m, wavelength * 1e7, diam, nMedium=nMedium) for diam in diams]).T
 
     my_dict = {'ext_eff': qext, 'scat_eff': qsca, 'qabs': qabs,
                'g': g, 'qpr': qpr, 'backscat_eff': qback, 'qratio': qratio}
     my_dict['alpha_p'] = my_dict['ext_eff'] * np.pi / 4 * diams ** 2 * 1e-18
-    my_dict['beta_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
-    my_dict['scat_p'] = my_dict['backscat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
+    my_dict['beta_p'] = my_dict['backscat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
+    my_dict['scat_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
     my_dict['compre_real'] = m.real * np.ones_like(qext) / 1.0003
     my_dict['compre_im'] = m.imag * np.ones_like(qext) / 1.0003
-    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e4)
+    my_dict['size_parameter'] = np.pi * diams * 1e-3 / (wavelength * 1e4)
     my_dict['p_diam'] = diams * 1e-9
     my_dict['wavelength'] = wavelength * 1e4 * np.ones_like(qext)
     my_df = xr.Dataset(my_dict)
@@ -183,9 +183,9 @@ def scat_properties_ice(diams, wavelength, temperature=0., pressure=1013., rho_d
     m = calc_microwave_ref_index_ice(wavelength, temperature, rho_d)
     nMedium = 1 + 1e-6 * (77.6 * pressure /
                           (temperature + 273.15 + 3.75e-5 * pressure / (temperature + 273.15) ** 2))
-    diams, qext, qsca, qabs, g, qpr, qback, qratio = MieQ_withDiameterRange(
-        m, wavelength * 1e7, nMedium=nMedium,
-        nd=len(diams), diameterRange=(diams.min() * 1000., diams.max() * 1000.))
+    diams = np.asarray(diams) * 1000.  # nm
+    qext, qsca, qabs, g, qpr, qback, qratio = np.array(
+        [AutoMieQ(m, wavelength * 1e7, diam, nMedium=nMedium) for diam in diams]).T
 
     my_dict = {'ext_eff': qext, 'scat_eff': qsca, 'qabs': qabs,
                'g': g, 'qpr': qpr, 'backscat_eff': qback, 'qratio': qratio}
@@ -194,7 +194,7 @@ def scat_properties_ice(diams, wavelength, temperature=0., pressure=1013., rho_d
     my_dict['scat_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
     my_dict['compre_real'] = m.real * np.ones_like(qext) / 1.0003
     my_dict['compre_im'] = m.imag * np.ones_like(qext) / 1.0003
-    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e4)
+    my_dict['size_parameter'] = np.pi * diams * 1e-3 / (wavelength * 1e4)
     my_dict['p_diam'] = diams * 1e-9
     my_dict['wavelength'] = wavelength * 1e4 * np.ones_like(qext)
     my_df = xr.Dataset(my_dict)
-- 
2.43.0


From d0013ce90b614d4af37483e0813c1ad25e19180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 41/67] fix: layer bottoms of the lidar signals sent to the
 common grid were shifted one layer up

---
 emc2/statistics_LLNL/statistical_aggregation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 3d0062b..c8c2929 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -100,8 +100,8 @@ def get_ATB_ATBmol(model, subcolumn_index, time_index, ncol_index):
 
     zfull = copy.deepcopy(z_filed_m)
     zhalf = np.zeros_like(zfull)
-    zhalf[:-1] = zfull[:-1] + np.diff(zfull) / 2.
-    zhalf[-1] = zfull[-1]
+    zhalf[1:] = zfull[:-1] + np.diff(zfull) / 2.  # bottom of each layer
+    zhalf[0] = 2. * zfull[0] - zhalf[1]  # Bottom level symmetric
 
     return sub_atb_total, sub_atb_mol, z_filed_m, zhalf, sub_ze_att_total
 
-- 
2.43.0


From 5d3eb244345e0b3daee9312aada174b519ae44c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 42/67] fix: missing and below-ground flags were averaged as
 values in the regridded signals

---
 emc2/statistics_LLNL/statistical_aggregation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index c8c2929..17a1ecc 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -148,6 +148,7 @@ def calculate_SR(atb_total_4D, atb_mol_4D, subcolum_num, time_num, z_full_km_3D,
     """
 
     R_UNDEF = -1.0E30
+    R_FLAG = -1.0E10  # Values below come from missing or below ground levels
     b = copy.deepcopy(atb_total_4D)
     atb_total_4D_num = np.nan_to_num(b, nan=R_UNDEF)
     c = copy.deepcopy(atb_mol_4D)
@@ -181,9 +182,9 @@ def calculate_SR(atb_total_4D, atb_mol_4D, subcolum_num, time_num, z_full_km_3D,
         Regrided_atb_mol_reorder_4D[:, :, :, kk] = np.transpose(
             Regrided_atb_mol_3D, axes=(1, 0, 2))  # loop through columns
 
-    loc_atbtot = np.where(Regrided_atb_total_reorder_4D == R_UNDEF)
+    loc_atbtot = np.where(Regrided_atb_total_reorder_4D < R_FLAG)
     Regrided_atb_total_reorder_4D[loc_atbtot] = np.nan
-    loc_atbmol = np.where(Regrided_atb_mol_reorder_4D == R_UNDEF)
+    loc_atbmol = np.where(Regrided_atb_mol_reorder_4D < R_FLAG)
     Regrided_atb_mol_reorder_4D[loc_atbmol] = np.nan
 
     SR_4D = Regrided_atb_total_reorder_4D / Regrided_atb_mol_reorder_4D
@@ -345,6 +346,7 @@ def get_regridded_ze_att_tot(Ze_att_total_4D, z_full_km_3D, z_half_km_3D, subcol
     """
 
     R_UNDEF = -1.0E30  # Missing value
+    R_FLAG = -1.0E10  # Values below come from missing or below ground levels
 
     a = copy.deepcopy(Ze_att_total_4D)
     Ze_att_total_4D_num = np.nan_to_num(a, nan=R_UNDEF)
@@ -367,7 +369,7 @@ def get_regridded_ze_att_tot(Ze_att_total_4D, z_full_km_3D, z_half_km_3D, subcol
         Regrided_Ze_att_tot_reorder_4D[:, :, :, kk] = np.transpose(
             Regrided_ze_att_total_3D, axes=(1, 0, 2))  # loop through columns
 
-    loc_ze = np.where(Regrided_Ze_att_tot_reorder_4D == R_UNDEF)
+    loc_ze = np.where(Regrided_Ze_att_tot_reorder_4D < R_FLAG)
     Regrided_Ze_att_tot_reorder_4D[loc_ze] = np.nan
 
     return Regrided_Ze_att_tot_reorder_4D
-- 
2.43.0


From 8c0aac4348528ed5bfe75980e3313176e12da113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 43/67] fix: vertical regridding skipped levels, failed above
 the model top and gave 0 where it has no data

---
 emc2/statistics_LLNL/statistical_aggregation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 17a1ecc..dc958a0 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -247,7 +247,7 @@ def COSP_CHANGE_VERTICAL_GRID(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglev
             wt = 0.  # Sum of weights
             # Loop over levels in the old grid and accumulate total for weighted average
             # change do loop in Fortran to while loop in Python
-            while lev < Nlevels:
+            while lev < Nlevels - 1:
                 lev = lev + 1  # return to while loop
                 w = 0.0  # Initialise weight to 0
 
@@ -288,13 +288,15 @@ def COSP_CHANGE_VERTICAL_GRID(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglev
 
                             r[i, j, k] = r[i, j, k] + w*yp
             lev -= 2
-            if lev < 1:
-                lev = 0
+            if lev < 0:
+                lev = -1
 
             # Calculate average in new grid
             if Nw > 0:
                 for j in np.arange(Ncolumns):
                     r[i, j, k] = r[i, j, k] / wt
+            else:  # no model level within this new level
+                r[i, :, k] = R_UNDEF
 
     for k in np.arange(Nglevels):
         for j in np.arange(Ncolumns):
-- 
2.43.0


From 03562cfb396420f2715845de032409914a174547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 44/67] fix: reflectivity bins were not saved with the CFADs

---
 emc2/statistics_LLNL/statistical_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/statistics_LLNL/statistical_output.py b/emc2/statistics_LLNL/statistical_output.py
index ee6899c..005be17 100755
--- a/emc2/statistics_LLNL/statistical_output.py
+++ b/emc2/statistics_LLNL/statistical_output.py
@@ -31,7 +31,7 @@ def save_cfads_to_nc(model, kazr_DBZE_BINS_ground, CF_3D,
     """
 
     model_ds_add = model.ds
-    model_ds_add.assign_coords({"cosp_dbz": ("cosp_dbz", kazr_DBZE_BINS_ground)})
+    model_ds_add = model_ds_add.assign_coords({"cosp_dbz": ("cosp_dbz", kazr_DBZE_BINS_ground)})
     model_ds_add["CFAD_Radar"] = (['cosp_ht', 'cosp_ze'], cfaddbz35_cal_alltime)
     model_ds_add["CFAD_SR"] = (['cosp_ht', 'cosp_sr'], cfadSR_cal_alltime)
     print('saved CFADs')
-- 
2.43.0


From b46f20886c36899829dc349a58f411490458e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 45/67] fix: log_plot failed unless both colour limits were
 given

---
 emc2/plotting/subcol_display.py | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 99f2cc2..8d01f40 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -459,12 +459,8 @@ class SubcolumnDisplay(Display):
             date_xaxis = False
 
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                        **kwargs)
         else:
@@ -588,12 +584,8 @@ class SubcolumnDisplay(Display):
             date_xaxis = False
 
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                        **kwargs)
         else:
@@ -714,12 +706,8 @@ class SubcolumnDisplay(Display):
         if x_range is not None:
             self.axes[subplot_index].set_xlim(x_range)
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                        **kwargs)
         else:
@@ -1154,12 +1142,8 @@ class SubcolumnDisplay(Display):
             date_xaxis = False
 
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                     **kwargs)
         else:
-- 
2.43.0


From f7743afe30082cc0f1f7547c69bf753b431ef024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 46/67] fix: plotting the regridded cloud fraction or SR
 changed the caller's array

---
 emc2/plotting/subcol_display.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 8d01f40..a6159f9 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -1235,7 +1235,7 @@ class SubcolumnDisplay(Display):
         x, y = np.meshgrid(x, y)
         
         #  modified    
-        var_array = np.squeeze(var_array_3D[:,:,col_index]).T
+        var_array = var_array_3D[:,:,col_index].T.copy()
         var_array[var_array<=0]=np.nan  # can be with blue 
                         
         if y_range is not None:
@@ -1327,7 +1327,7 @@ class SubcolumnDisplay(Display):
         x = my_ds[x_variable].values
         y = newgrid_mid*1000. # from km to m
         x, y = np.meshgrid(x, y)  
-        var_array = np.squeeze(var_array_4D[subcol_index,:,:,col_index]).T   
+        var_array = var_array_4D[subcol_index,:,:,col_index].T.copy()
         var_array[var_array==0]=np.nan
                 
         if y_range is not None:
-- 
2.43.0


From d23e71c34eaa6bed98aedc7cc07ae0029623a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 47/67] fix: undefined cells entered the geometric mean profile
 as real values

---
 emc2/plotting/subcol_display.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index a6159f9..3499a74 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -192,6 +192,7 @@ class SubcolumnDisplay(Display):
         SD: np.ndarray
             array of calculated SD.
         """
+        variable = np.ma.filled(np.ma.array(variable, dtype=float), np.nan)  # np.where below sees through a mask
         if use_geom_mean:
             if np.any(variable <= 0):
                 print("Negative values exist in array - will be ignored in geomteric SD calculation")
-- 
2.43.0


From ee624901d035a3b585ea03da749c538047b28120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 48/67] fix: mean profiles failed with a time range of strings

---
 emc2/plotting/subcol_display.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 3499a74..41def6d 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -808,6 +808,8 @@ class SubcolumnDisplay(Display):
         if time is not None:
             if np.logical_or(type(time) is tuple, type(time) is str):
                 time = np.array(time)
+                if time.dtype.kind == 'U':
+                    time = time.astype('datetime64[ns]')
             if time.size == 1:
                 my_ds = self._ds[ds_name].sel({x_variable: time}, method='nearest')
             else:
-- 
2.43.0


From 731bcba85846402c9b978ec39a2470ebcfca2b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 49/67] fix: shading of geometric mean profiles added the
 (factor) deviation instead of multiplying

---
 emc2/plotting/subcol_display.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 41def6d..2159739 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -848,8 +848,11 @@ class SubcolumnDisplay(Display):
                     x_var, x_err = self.calc_mean_and_sd(10**(x_variable / 10), use_geom_mean, axis=(0, 1))
             x_label = ''
             Xscale = 'linear'  # treating dBZ as linear for plotting
-            x_fill = np.array(10 * np.log10([x_var - x_err, x_var + x_err]))
-            x_fill[0] = np.where(x_var > x_err, x_fill[0], 10 * np.log10(np.finfo(float).eps))
+            if use_geom_mean:  # the geometric SD is a factor about the mean
+                x_fill = np.array(10 * np.log10([x_var / x_err, x_var * x_err]))
+            else:
+                x_fill = np.array(10 * np.log10([x_var - x_err, x_var + x_err]))
+                x_fill[0] = np.where(x_var > x_err, x_fill[0], 10 * np.log10(np.finfo(float).eps))
         else:
             with warnings.catch_warnings():  # Ignore "mean of slice" warning common with nan values.
                 warnings.simplefilter("ignore", category=RuntimeWarning)
@@ -857,7 +860,10 @@ class SubcolumnDisplay(Display):
                     x_var, x_err = self.calc_mean_and_sd(x_variable, use_geom_mean, axis=0)
                 elif len(x_variable.shape) == 3:
                     x_var, x_err = self.calc_mean_and_sd(x_variable, use_geom_mean, axis=(0, 1))
-            x_fill = np.array([x_var - x_err, x_var + x_err])
+            if use_geom_mean:  # the geometric SD is a factor about the mean
+                x_fill = np.array([x_var / x_err, x_var * x_err])
+            else:
+                x_fill = np.array([x_var - x_err, x_var + x_err])
             if log_plot:
                 x_label = 'log '
                 Xscale = 'log'
@@ -996,13 +1002,19 @@ class SubcolumnDisplay(Display):
                 x_var, x_err = self.calc_mean_and_sd(10**(x_variable / 10), use_geom_mean, axis=0)
             x_label = ''
             Xscale = 'linear'  # treating dBZ as linear for plotting
-            x_fill = np.array(10 * np.log10([x_var - x_err, x_var + x_err]))
-            x_fill[0] = np.where(x_var > x_err, x_fill[0], 10 * np.log10(np.finfo(float).eps))
+            if use_geom_mean:  # the geometric SD is a factor about the mean
+                x_fill = np.array(10 * np.log10([x_var / x_err, x_var * x_err]))
+            else:
+                x_fill = np.array(10 * np.log10([x_var - x_err, x_var + x_err]))
+                x_fill[0] = np.where(x_var > x_err, x_fill[0], 10 * np.log10(np.finfo(float).eps))
         else:
             with warnings.catch_warnings():  # Ignore "mean of slice" warning common with nan values.
                 warnings.simplefilter("ignore", category=RuntimeWarning)
                 x_var, x_err = self.calc_mean_and_sd(x_variable, use_geom_mean, axis=0)
-            x_fill = np.array([x_var - x_err, x_var + x_err])
+            if use_geom_mean:  # the geometric SD is a factor about the mean
+                x_fill = np.array([x_var / x_err, x_var * x_err])
+            else:
+                x_fill = np.array([x_var - x_err, x_var + x_err])
             if log_plot:
                 Xscale = 'log'
             else:
-- 
2.43.0


From bb075857de3b48991f12409ab48c726b70565153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 50/67] fix: colour limits of the CFAD plots failed or were
 ignored

---
 emc2/statistics_LLNL/statistical_plots.py | 24 +++++------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 6c5901b..c88e7d6 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -213,17 +213,10 @@ def plot_radar_CFAD(Ze_EDGES, newgrid_mid, cfaddbz35_cal_alltime,
     else:
         cmap = kwargs.pop('cmap')
 
-    if not 'vmin' in kwargs.keys():
-        vmin = 0.0
-    else:
-        vmin = kwargs.pop('vmax')
-
-    if not 'vmax' in kwargs.keys():
-        vmax = 0.0
-    else:
-        vmax = kwargs.pop('vmax')    
+    vmin = kwargs.pop('vmin', 0.0)
+    vmax = kwargs.pop('vmax', 0.2)
     c1 = ax.pcolormesh(Ze_EDGES, levStat_km_add0,
-                       cfaddbz35_cal_alltime, cmap=cmap, vmin=0.0, vmax=0.2,
+                       cfaddbz35_cal_alltime, cmap=cmap, vmin=vmin, vmax=vmax,
                        **kwargs)
     ax.set_xlabel('Ze bins [dBZ]')
     ax.set_ylabel('Height [km]')
@@ -299,15 +292,8 @@ def plot_lidar_SR_CFAD(SR_EDGES, newgrid_mid, cfadSR_cal_alltime,
         cmap = kwargs.pop('cmap')
 
     SR_BINS_index = np.arange(len(SR_EDGES))
-    if not 'vmin' in kwargs.keys():
-        vmin = 0.0
-    else:
-        vmin = kwargs.pop('vmax')
-
-    if not 'vmax' in kwargs.keys():
-        vmax = 0.0
-    else:
-        vmax = kwargs.pop('vmax')    
+    vmin = kwargs.pop('vmin', 0.0)
+    vmax = kwargs.pop('vmax', 0.2)
     c1 = ax.pcolormesh(SR_BINS_index, levStat_km_add0,
                        cfadSR_cal_alltime, cmap=cmap, vmin=vmin, vmax=vmax,
                        **kwargs)
-- 
2.43.0


From 1291af4977fbf10a857fb86140c9dfec35c7b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 51/67] fix: CFAD plots ignored the height grid they were given

---
 emc2/statistics_LLNL/statistical_plots.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index c88e7d6..b740e03 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -181,7 +181,9 @@ def plot_radar_CFAD(Ze_EDGES, newgrid_mid, cfaddbz35_cal_alltime,
 
     # height
     levStat_km = copy.deepcopy(newgrid_mid)
-    levStat_km_add0 = np.arange(len(levStat_km) + 1) * 0.48
+    dz = np.diff(levStat_km) if len(levStat_km) > 1 else np.array([0.48])
+    levStat_km_add0 = np.concatenate(  # edges of the height bins
+        (levStat_km[:1] - dz[0] / 2., levStat_km[:-1] + np.diff(levStat_km) / 2., levStat_km[-1:] + dz[-1] / 2.))
 
     fig, ax = plt.subplots(nrows=1, ncols=1, figsize=(5, 8))
     clb_dy, clb_ddy = 0.15, 0.03
@@ -261,7 +263,9 @@ def plot_lidar_SR_CFAD(SR_EDGES, newgrid_mid, cfadSR_cal_alltime,
 
     # height
     levStat_km = copy.deepcopy(newgrid_mid)
-    levStat_km_add0 = np.arange(len(levStat_km) + 1) * 0.48
+    dz = np.diff(levStat_km) if len(levStat_km) > 1 else np.array([0.48])
+    levStat_km_add0 = np.concatenate(  # edges of the height bins
+        (levStat_km[:1] - dz[0] / 2., levStat_km[:-1] + np.diff(levStat_km) / 2., levStat_km[-1:] + dz[-1] / 2.))
 
     fig, ax = plt.subplots(nrows=1, ncols=1, figsize=(5, 8))
     clb_dy, clb_ddy = 0.15, 0.03
-- 
2.43.0


From 3df27b1418a5522a0a41eeb70f8b24bdf2be46d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 52/67] fix: colour limits of the subcolumn signal plots were
 ignored or failed

---
 emc2/statistics_LLNL/statistical_plots.py | 29 ++++-------------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index b740e03..dcb1bf5 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -323,7 +323,7 @@ def plot_lidar_SR_CFAD(SR_EDGES, newgrid_mid, cfadSR_cal_alltime,
 def plot_every_subcolumn_timeseries_radarlidarsignal(
         model, col_index, save_flag, fig_path=None, fig_name=None,
         vmin_radar=-50, vmax_radar=10,
-        vmin_lidar=1e-8, vmax_lidar=1e-1, **kwargs):
+        vmin_lidar=1e-8, vmax_lidar=1e-3, **kwargs):
     """
     Generate timeseries of radar reflectivity and lidar backscatter from every subcolumn.
 
@@ -399,19 +399,10 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
 
     textx, texty = 0.04, 1.03
     ifig = 0
-    if not 'vmin' in list(kwargs.keys()):
-        vmin = -50.0
-    else:
-        vmin = kwargs.pop('vmin')
-
-    if not 'vmax' in list(kwargs.keys()):
-        vmax = 10.0
-    else:
-        vmax = kwargs.pop('vmin')    
     # var=np.transpose(dbze35_ground_th, axes=(0,2,1)).reshape(lev_ground.shape[0], -1)
     Ze_att_tot_plt[Ze_att_tot_plt <= -1.e+20] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
-                             Ze_att_tot_plt, vmin=-50, vmax=10, cmap=cmap, **kwargs)
+                             Ze_att_tot_plt, vmin=vmin_radar, vmax=vmax_radar, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'Radar', transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
     ddy = np.array(ax[ifig].get_position())[1, 1] - \
@@ -428,15 +419,12 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
     for label in ax[subplot_index].get_xticklabels(which='major'):
         label.set(rotation=x_rotation, horizontalalignment='right')
 
-    vmin = 1e-8
-    vmax = 1e-3
-
     ifig = 1
     # var=np.transpose(dbze35_ground_th, axes=(0,2,1)).reshape(lev_ground.shape[0], -1)
     beta_att_tot_plt[beta_att_tot_plt <= -1.e+40] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
-                             beta_att_tot_plt, norm=colors.LogNorm(vmin=vmin, vmax=vmax), 
-                             cmap=cmap)
+                             beta_att_tot_plt, norm=colors.LogNorm(vmin=vmin_lidar, vmax=vmax_lidar),
+                             cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'Lidar', transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
     ddy = np.array(ax[ifig].get_position())[1, 1] - \
@@ -554,15 +542,6 @@ def plot_every_subcolumn_timeseries_nonatt_radarlidarsignal(model, col_index, sa
     for label in ax[subplot_index].get_xticklabels(which='major'):
         label.set(rotation=x_rotation, horizontalalignment='right')
 
-    if not 'vmin' in kwargs.keys():
-        vmin = 1e-8
-    else:
-        vmin = kwargs.pop('vmin')
-    if not 'vmin' in kwargs.keys():
-        vmin = 1e-3
-    else:
-        vmin = kwargs.pop('vmax')    
-
     ifig = 1
     beta_tot_plt[beta_tot_plt <= -1.e+40] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
-- 
2.43.0


From 2e59772a4534e7866012fa0c315b2b31592b6c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 53/67] fix: plots of a single subcolumn overwrote the model
 output

---
 emc2/statistics_LLNL/statistical_plots.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index dcb1bf5..555f0c4 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -378,9 +378,9 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
                                                     :, :, col_index].values
 
     Ze_att_tot_plt = np.transpose(
-        Ze_att_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
+        Ze_att_tot, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
     beta_att_tot_plt = np.transpose(
-        beta_att_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
+        beta_att_tot, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     x_dateformat = "%b%d-%H"
     x_rotation = 30
@@ -503,8 +503,8 @@ def plot_every_subcolumn_timeseries_nonatt_radarlidarsignal(model, col_index, sa
 
     Ze_tot = model.ds['sub_col_Ze_tot'][:, :, :, col_index].values
     beta_tot = model.ds['sub_col_beta_p_tot'][:, :, :, col_index].values
-    Ze_tot_plt = np.transpose(Ze_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
-    beta_tot_plt = np.transpose(beta_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
+    Ze_tot_plt = np.transpose(Ze_tot, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
+    beta_tot_plt = np.transpose(beta_tot, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
     x_dateformat = "%b%d-%H"
     x_rotation = 30
 
@@ -732,22 +732,22 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     strat_q_subcolumns_cl = model.ds['strat_q_subcolumns_cl'][
         :, :, :, col_index].values
     strat_q_subcolumns_cl_plt = np.transpose(
-        strat_q_subcolumns_cl, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_cl, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     strat_q_subcolumns_ci = model.ds['strat_q_subcolumns_ci'][
         :, :, :, col_index].values
     strat_q_subcolumns_ci_plt = np.transpose(
-        strat_q_subcolumns_ci, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_ci, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     strat_q_subcolumns_pl = model.ds['strat_q_subcolumns_pl'][
         :, :, :, col_index].values
     strat_q_subcolumns_pl_plt = np.transpose(
-        strat_q_subcolumns_pl, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_pl, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     strat_q_subcolumns_pi = model.ds['strat_q_subcolumns_pi'][
         :, :, :, col_index].values
     strat_q_subcolumns_pi_plt = np.transpose(
-        strat_q_subcolumns_pi, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_pi, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     # plot
 
-- 
2.43.0


From 410af38c41436c1bd5bfdd60e71ff1d5a8690aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 54/67] fix: limits, colour map and drawing options of the SR
 and mixing ratio plots

---
 emc2/statistics_LLNL/statistical_plots.py | 24 +++++++++--------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 555f0c4..8e1b8b6 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -641,14 +641,8 @@ def plot_every_subcolumn_timeseries_SR(model, atb_total_4D, atb_mol_4D,
         cmap = 'Spectral_r'
     else:
         cmap = kwargs.pop('cmap')
-    if not 'vmin' in kwargs.keys():
-        vmin = 0
-    else:
-        vmin = kwargs.pop('vmin')
-    if not 'vmax' in kwargs.keys():
-        vmax = 0
-    else:
-        vmax = kwargs.pop('vmax')    
+    vmin = kwargs.pop('vmin', 0)
+    vmax = kwargs.pop('vmax', 80)
 
     fontsize_input = 12
     plt.rcParams.update({'font.size': 12})
@@ -657,7 +651,7 @@ def plot_every_subcolumn_timeseries_SR(model, atb_total_4D, atb_mol_4D,
     sr_model_level = beta_att_tot_plt/beta_mol_plt
     sr_model_level[sr_model_level <= -1.e+40] = np.nan
     c1 = ax.pcolormesh(input_time_2d_long, input_height_half_long,
-                       sr_model_level, cmap=cmap, vmin=vmin, vmax=vmax)
+                       sr_model_level, cmap=cmap, vmin=vmin, vmax=vmax, **kwargs)
     ax.text(textx, texty, 'SR', transform=ax.transAxes)
     y1 = np.array(ax.get_position())[0, 1]
     ddy = np.array(ax.get_position())[1, 1]-np.array(ax.get_position())[0, 1]
@@ -782,7 +776,7 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     strat_q_subcolumns_cl_plt[strat_q_subcolumns_cl_plt <= 0] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long/1000.,
                              strat_q_subcolumns_cl_plt*1000., vmin=vmin,
-                             vmax=vmax, cmap=cmap)
+                             vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'strat_q_subcolumns_cl',
                   transform=ax[ifig].transAxes)
 
@@ -805,7 +799,7 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     strat_q_subcolumns_ci_plt[strat_q_subcolumns_ci_plt <= 0] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long/1000.,
                              strat_q_subcolumns_ci_plt*1000., vmin=vmin,
-                             vmax=vmax, cmap=cmap)
+                             vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'strat_q_subcolumns_ci',
                   transform=ax[ifig].transAxes)
     # ax[ifig].set_xlabel('loc')
@@ -828,7 +822,7 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     strat_q_subcolumns_pl_plt[strat_q_subcolumns_pl_plt <= 0] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long/1000.,
                              strat_q_subcolumns_pl_plt*1000., vmin=vmin,
-                             vmax=vmax, cmap=cmap)
+                             vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'strat_q_subcolumns_pl',
                   transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
@@ -850,7 +844,7 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     strat_q_subcolumns_pi_plt[strat_q_subcolumns_pi_plt <= 0] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long/1000.,
                              strat_q_subcolumns_pi_plt*1000., vmin=vmin,
-                             vmax=vmax, cmap=cmap)
+                             vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'strat_q_subcolumns_pi',
                   transform=ax[ifig].transAxes)
     # ax[ifig].set_xlabel('loc')
@@ -958,7 +952,7 @@ def plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation(
                         right=0.9, wspace=0.1, hspace=0.2)
     ax = axes.flatten()
     if not 'cmap' in kwargs.keys():
-        cmap = 'act_HomeyerRainbow'
+        cmap = 'Spectral_r'
     else:
         cmap = kwargs.pop('cmap')
 
@@ -1002,7 +996,7 @@ def plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation(
     plot_var1[plot_var1 < 0] = np.nan
     c1 = ax[ifig].pcolormesh(
         input_time_2d_long, input_height_half_long / 1000.,
-        plot_var1*1000., vmin=0, vmax=0.1, cmap=cmap)
+        plot_var1*1000., vmin=vmin, vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, '(b) Precipitation',
                   transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
-- 
2.43.0


From 8f1a86c5fd401c092de1ac49b5a0e7d6fcfcd585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 55/67] fix: mean profile of one subcolumn at a single time
 failed

---
 emc2/plotting/subcol_display.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 2159739..5f0573a 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -842,10 +842,8 @@ class SubcolumnDisplay(Display):
         if 'Ze' in variable:
             with warnings.catch_warnings():  # Ignore "mean of slice" warning common with nan values.
                 warnings.simplefilter("ignore", category=RuntimeWarning)
-                if len(x_variable.shape) == 2:
-                    x_var, x_err = self.calc_mean_and_sd(10**(x_variable / 10), use_geom_mean, axis=0)
-                elif len(x_variable.shape) == 3:
-                    x_var, x_err = self.calc_mean_and_sd(10**(x_variable / 10), use_geom_mean, axis=(0, 1))
+                x_var, x_err = self.calc_mean_and_sd(10**(x_variable / 10), use_geom_mean,
+                                                     axis=tuple(range(x_variable.ndim - 1)))
             x_label = ''
             Xscale = 'linear'  # treating dBZ as linear for plotting
             if use_geom_mean:  # the geometric SD is a factor about the mean
@@ -856,10 +854,8 @@ class SubcolumnDisplay(Display):
         else:
             with warnings.catch_warnings():  # Ignore "mean of slice" warning common with nan values.
                 warnings.simplefilter("ignore", category=RuntimeWarning)
-                if len(x_variable.shape) == 2:
-                    x_var, x_err = self.calc_mean_and_sd(x_variable, use_geom_mean, axis=0)
-                elif len(x_variable.shape) == 3:
-                    x_var, x_err = self.calc_mean_and_sd(x_variable, use_geom_mean, axis=(0, 1))
+                x_var, x_err = self.calc_mean_and_sd(x_variable, use_geom_mean,
+                                                     axis=tuple(range(x_variable.ndim - 1)))
             if use_geom_mean:  # the geometric SD is a factor about the mean
                 x_fill = np.array([x_var / x_err, x_var * x_err])
             else:
-- 
2.43.0


From 3ac9854f93ca0bb55e78de99506a9ca2a5352051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 56/67] fix: DHARMA took the fraction of the second
 precipitating ice class for its effective radius

---
 emc2/core/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 1dbb165..5f2bb98 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -1466,8 +1466,8 @@ class DHARMA(Model):
             self.strat_frac_names.update({'pir': 'strat_pir_frac'})
             self.conv_frac_names_for_rad.update({'pir': 'conv_dat'})
             self.strat_frac_names_for_rad.update({'pir': 'strat_pir_frac'})
-            self.conv_re_fields.update({'pir': 'strat_pir_frac'})
-            self.strat_re_fields.update({'pir': 'strat_pir_frac'})
+            self.conv_re_fields.update({'pir': 'conv_dat'})
+            self.strat_re_fields.update({'pir': 're_strat_pir'})
             self.q_names_convective.update({'pir': 'conv_dat'})
             self.q_names_stratiform.update({'pir': 'qpir'})
             self.Vd_rhoa_scaling_ref['pir'] = 1.15  # Localleti and Hobbs (1974) - est. based on paper info
-- 
2.43.0


From 0da6cc9812c26bce78d2b1d7a4b772d98bd8ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 57/67] fix: simulate a lidar for hydrometeor classes without
 the model's first class

---
 emc2/simulator/lidar_moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 33eb956..4d3723d 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -114,8 +114,8 @@ def calc_LDR_and_ext(model, ext_OD=4., OD_from_sfc=True, LDR_per_hyd=None, hyd_t
     else:
         OD_str = ("layer top", "from TOA")
 
-    numerator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % model.hydrometeor_classes[0]])
-    denominator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % model.hydrometeor_classes[0]])
+    numerator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % hyd_types[0]])
+    denominator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % hyd_types[0]])
     for cloud_str in cld_classes:
         numerator = 0.
         denominator = 0.
-- 
2.43.0


From 38af030442914e7b76f9b90a541f15ebdbb992d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 58/67] fix: mixing ratio time series plot works with a
 SubcolumnDisplay and without colour limits

---
 emc2/statistics_LLNL/statistical_plots.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 8e1b8b6..08e2411 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -59,11 +59,11 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
     cbar: Matplotlib axes handle
         The matplotlib colorbar handle of the plot.
     """
-    ds_name = [x for x in self._obj.keys()][0]
+    ds_name = [x for x in self._ds.keys()][0]
     if len(self.model.ds[variable].dims) == 3:
-        my_ds = self._obj[ds_name].sel(subcolumn=column_no)
+        my_ds = self._ds[ds_name].sel(subcolumn=column_no)
     else:
-        my_ds = self._obj[ds_name]
+        my_ds = self._ds[ds_name]
     x_variable = self.model.time_dim
     if pressure_coords:
         y_variable = self.model.height_dim
@@ -113,12 +113,8 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
         date_xaxis = False
 
     if log_plot is True:
-        if 'vmin' in kwargs.keys():
-            vmin = kwargs['vmin']
-            del kwargs['vmin']
-        if 'vmax' in kwargs.keys():
-            vmax = kwargs['vmax']
-            del kwargs['vmax']
+        vmin = kwargs.pop('vmin', None)
+        vmax = kwargs.pop('vmax', None)
         mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                    **kwargs)
     else:
-- 
2.43.0


From d2d75298c477a8352e7304613151bae1db7acdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 59/67] fix: display masks that are ignored or not positive
 hatch nothing

---
 emc2/plotting/subcol_display.py           | 20 ++++++++++++--------
 emc2/statistics_LLNL/statistical_plots.py |  5 +++--
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 5f0573a..14f9a0f 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -448,6 +448,7 @@ class SubcolumnDisplay(Display):
                 print("Mask dimensions " + str(Mask_array.shape) +
                       " are different than in the requested field " +
                       str(var_array.shape) + " - ignoring mask")
+                Mask_array = None
         if y_range is not None:
             self.axes[subplot_index].set_ylim(y_range)
         if x_range is not None:
@@ -471,8 +472,8 @@ class SubcolumnDisplay(Display):
             hatched_mask = True
         else:
             hatch = '\\/...'
-        if hatched_mask:
-            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+        if hatched_mask and Mask_array is not None:
+            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                             hatch=hatch, alpha=0.)
 
         if date_xaxis:
@@ -573,6 +574,7 @@ class SubcolumnDisplay(Display):
                 print("Mask dimensions " + str(Mask_array.shape) +
                       " are different than in the requested field " +
                       str(var_array.shape) + " - ignoring mask")
+                Mask_array = None
         if y_range is not None:
             self.axes[subplot_index].set_ylim(y_range)
         if x_range is not None:
@@ -596,8 +598,8 @@ class SubcolumnDisplay(Display):
             hatched_mask = True
         else:
             hatch = '\\/...'
-        if hatched_mask:
-            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+        if hatched_mask and Mask_array is not None:
+            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                             hatch=hatch, alpha=0.)
 
         if date_xaxis:
@@ -702,6 +704,7 @@ class SubcolumnDisplay(Display):
                 print("Mask dimensions " + str(Mask_array.shape) +
                       " are different than in the requested field " +
                       str(var_array.shape) + " - ignoring mask")
+                Mask_array = None
         if y_range is not None:
             self.axes[subplot_index].set_ylim(y_range)
         if x_range is not None:
@@ -718,8 +721,8 @@ class SubcolumnDisplay(Display):
             hatched_mask = True
         else:
             hatch = '\\/...'
-        if hatched_mask:
-            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+        if hatched_mask and Mask_array is not None:
+            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                             hatch=hatch, alpha=0.)
         if title is None:
             time_title = ""
@@ -1141,6 +1144,7 @@ class SubcolumnDisplay(Display):
                 print("Mask dimensions " + str(Mask_array.shape) +
                     " are different than in the requested field " +
                     str(var_array.shape) + " - ignoring mask")
+                Mask_array = None
         if y_range is not None:
             self.axes[subplot_index].set_ylim(y_range)
         if x_range is not None:
@@ -1164,8 +1168,8 @@ class SubcolumnDisplay(Display):
             hatched_mask = True
         else:
             hatch = '\\/...'
-        if hatched_mask:
-            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+        if hatched_mask and Mask_array is not None:
+            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                             hatch=hatch, alpha=0.)
 
         if date_xaxis:
diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 08e2411..0e035d1 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -101,6 +101,7 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
             print("Mask dimensions " + str(Mask_array.shape) +
                   " are different than in the requested field " +
                   str(var_array.shape) + " - ignoring mask")
+            Mask_array = None
     if y_range is not None:
         self.axes[subplot_index].set_ylim(y_range)
     if x_range is not None:
@@ -124,8 +125,8 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
         hatched_mask = True
     else:
         hatch = '\\/...'
-    if hatched_mask:
-        self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+    if hatched_mask and Mask_array is not None:
+        self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                         hatch=hatch, alpha=0.)
 
     if date_xaxis:
-- 
2.43.0


From cbe1e1293226418ebb393fd413757c460ad8ea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:20 +0000
Subject: [PATCH 60/67] fix: scattering tables label extinction, backscatter
 and scattering cross sections with their own names and units

---
 emc2/io/load_mie_file.py          |  2 +-
 emc2/io/load_scat_file.py         |  2 +-
 emc2/scattering/mie_scattering.py | 18 +++++++++---------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/emc2/io/load_mie_file.py b/emc2/io/load_mie_file.py
index 132ee6e..46fe557 100644
--- a/emc2/io/load_mie_file.py
+++ b/emc2/io/load_mie_file.py
@@ -52,7 +52,7 @@ def load_mie_file(filename):
                                              "by the real index of the medium (imaginary part)")
     my_df['compre_im'].attrs["standard_name"] = "Complex_over_real_Im"
 
-    my_df["scat_p"].attrs["units"] = "microns^2"
+    my_df["scat_p"].attrs["units"] = "meters^2"
     my_df["scat_p"].attrs["long_name"] = "scattering cross section"
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section"
 
diff --git a/emc2/io/load_scat_file.py b/emc2/io/load_scat_file.py
index 0e5cd62..1e4cab6 100644
--- a/emc2/io/load_scat_file.py
+++ b/emc2/io/load_scat_file.py
@@ -88,7 +88,7 @@ def load_scat_file(filename, is_radar, param_type="C6"):
     my_df["V"].attrs["long_name"] = "Particle volume"
     my_df['V'].attrs["standard_name"] = "Volume"
 
-    my_df["scat_p"].attrs["units"] = "microns^2"
+    my_df["scat_p"].attrs["units"] = "meters^2"
     my_df["scat_p"].attrs["long_name"] = "Scattering cross section"
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section"
 
diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index 59cd2fb..3a1411e 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -124,12 +124,12 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section_fwd"
 
     my_df["alpha_p"].attrs["units"] = "meters^2"
-    my_df["alpha_p"].attrs["long_name"] = "Back scattering cross section"
-    my_df["alpha_p"].attrs["standard_name"] = "Scat_cross_section_back"
+    my_df["alpha_p"].attrs["long_name"] = "Extinction cross section"
+    my_df["alpha_p"].attrs["standard_name"] = "Ext_cross_section"
 
     my_df["beta_p"].attrs["units"] = "meters^2"
-    my_df["beta_p"].attrs["long_name"] = "Extinction cross section"
-    my_df["beta_p"].attrs["standard_name"] = "Ext_cross_section"
+    my_df["beta_p"].attrs["long_name"] = "Back scattering cross section"
+    my_df["beta_p"].attrs["standard_name"] = "Scat_cross_section_back"
 
     my_df["scat_eff"].attrs["units"] = "1"
     my_df["scat_eff"].attrs["long_name"] = "Forward scattering efficiency"
@@ -221,17 +221,17 @@ def scat_properties_ice(diams, wavelength, temperature=0., pressure=1013., rho_d
                                              "by the real index of the medium (imaginary part)")
     my_df['compre_im'].attrs["standard_name"] = "Complex_over_real_Im"
 
-    my_df["scat_p"].attrs["units"] = "microns^2"
+    my_df["scat_p"].attrs["units"] = "meters^2"
     my_df["scat_p"].attrs["long_name"] = "Forward scattering cross section"
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section_fwd"
 
     my_df["alpha_p"].attrs["units"] = "meters^2"
-    my_df["alpha_p"].attrs["long_name"] = "Back scattering cross section"
-    my_df["alpha_p"].attrs["standard_name"] = "Scat_cross_section_back"
+    my_df["alpha_p"].attrs["long_name"] = "Extinction cross section"
+    my_df["alpha_p"].attrs["standard_name"] = "Ext_cross_section"
 
     my_df["beta_p"].attrs["units"] = "meters^2"
-    my_df["beta_p"].attrs["long_name"] = "Extinction cross section"
-    my_df["beta_p"].attrs["standard_name"] = "Ext_cross_section"
+    my_df["beta_p"].attrs["long_name"] = "Back scattering cross section"
+    my_df["beta_p"].attrs["standard_name"] = "Scat_cross_section_back"
 
     my_df["scat_eff"].attrs["units"] = "1"
     my_df["scat_eff"].attrs["long_name"] = "Forward scattering efficiency"
-- 
2.43.0


From 8334b424124ffe60b57737c1a828e25572e9d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:03 +0000
Subject: [PATCH 61/67] fix: SubcolumnDisplay crops to numpy integer indices
 and single-precision coordinates too

---
 emc2/plotting/subcol_display.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 14f9a0f..90d338a 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -139,17 +139,17 @@ class SubcolumnDisplay(Display):
                 if deep:
                     self.model.ds = copy.deepcopy(model.ds)
                 if self.model.lat_dim in self.model.ds.dims:
-                    if isinstance(lat_sel, float):
+                    if isinstance(lat_sel, (float, np.floating)):
                         print("cropping lat dim (lat requested = %.2f)" % lat_sel)
                         self.model.ds = self.model.ds.sel({self.model.lat_dim: lat_sel}, method='nearest')
-                    elif isinstance(lat_sel, int):
+                    elif isinstance(lat_sel, (int, np.integer)):
                         print("cropping lat dim (lat index requested = %d)" % lat_sel)
                         self.model.ds = self.model.ds.isel({self.model.lat_dim: lat_sel})
                 if self.model.lon_dim in self.model.ds.dims:
-                    if isinstance(lon_sel, float):
+                    if isinstance(lon_sel, (float, np.floating)):
                         print("cropping lon dim (lon requested = %.2f)" % lon_sel)
                         self.model.ds = self.model.ds.sel({self.model.lon_dim: lon_sel}, method='nearest')
-                    elif isinstance(lon_sel, int):
+                    elif isinstance(lon_sel, (int, np.integer)):
                         print("cropping lon dim (lon index requested = %d)" % lon_sel)
                         self.model.ds = self.model.ds.isel({self.model.lon_dim: lon_sel})
         else:
-- 
2.43.0


From e33c12526151b613c0c2e3128631db5288aab69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:03 +0000
Subject: [PATCH 62/67] fix: relative variance given as a numpy scalar is
 accepted

---
 emc2/simulator/subcolumn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 380232b..2afc6e7 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -527,7 +527,7 @@ def set_q_n(model, hyd_type, is_conv=True, qc_flag=False, inv_rel_var=None, use_
             if model.strat_relvar_name in model.ds.keys():
                 print(f"Found relative variance field ({model.strat_relvar_name}) in dataset - using it!")
                 inv_rel_var = 1.0 / model.ds[model.strat_relvar_name].values
-            if isinstance(inv_rel_var, (float, int)):  # setting as array
+            if np.ndim(inv_rel_var) == 0:  # setting as array
                 inv_rel_var = np.full(q_array.shape, inv_rel_var)
 
             q_ic_mean = np.where(q_array > q_trunc_thresh, q_array / data_frac, 0)
-- 
2.43.0


From c767b5e63a9ef1758589ba31d96685cd55fa7adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 63/67] fix: default limits of mean profile plots keep negative
 values inside the axis

---
 emc2/plotting/subcol_display.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 90d338a..055d1b3 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -869,8 +869,8 @@ class SubcolumnDisplay(Display):
             else:
                 x_label = ''
                 Xscale = 'linear'
-        x_lim = np.array([np.nanmin(x_fill[0]) * 0.95,
-                          np.nanmax(x_fill[1] * 1.05)])
+        x_lim = np.array([np.nanmin(x_fill[0] - 0.05 * np.abs(x_fill[0])),
+                          np.nanmax(x_fill[1] + 0.05 * np.abs(x_fill[1]))])
 
         # Choose label based on variable
         hyd_met = ''
@@ -1018,8 +1018,8 @@ class SubcolumnDisplay(Display):
                 Xscale = 'log'
             else:
                 Xscale = 'linear'
-        x_lim = np.array([np.nanmin(x_fill[0]) * 0.95,
-                          np.nanmax(x_fill[1] * 1.05)])
+        x_lim = np.array([np.nanmin(x_fill[0] - 0.05 * np.abs(x_fill[0])),
+                          np.nanmax(x_fill[1] + 0.05 * np.abs(x_fill[1]))])
 
         if Xlabel is None:
             x_label = self.set_axis_label(my_ds, variable)
-- 
2.43.0


From 3cedd5ae89fb784eafde2017f33b488d7c5243d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:18 +0000
Subject: [PATCH 64/67] fix: scattering ratio CFADs label the bin edges they
 are given

---
 emc2/statistics_LLNL/statistical_plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 0e035d1..c093ac8 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -309,8 +309,8 @@ def plot_lidar_SR_CFAD(SR_EDGES, newgrid_mid, cfadSR_cal_alltime,
     clb = fig.colorbar(c1, cax=cb_ax, orientation='horizontal')
     clb.set_label('frequency')
     ax.set_ylim(0, 15)
-    ax.set_xticks(np.arange(8) * 2)
-    labels = np.array([0., 1.2, 5.0, 10.0, 20.0, 30.0, 50.0, 80.0])
+    ax.set_xticks(SR_BINS_index[::2])
+    labels = np.maximum(np.array(SR_EDGES[::2], dtype=float), 0.)
     ax.set_xticklabels(labels)
 
     if save_flag == 'save':
-- 
2.43.0


From c09919fc972ddb250a344e76fff9ab1f3964a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:52 +0000
Subject: [PATCH 65/67] fix: precipitation without its cloud subcolumns is
 refused with the KeyError it documents

---
 emc2/simulator/subcolumn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 2afc6e7..ef9abf2 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -348,12 +348,12 @@ def set_precip_sub_col_frac(model, is_conv, N_columns=None, use_rad_logic=True,
     else:
         full_overcast_pl_pi = 0
         if in_prof_cloud_name_liq not in model.ds.variables.keys():
-            raise KeyError("%s is not a variable in the model object. Please ensure that you have" +
+            raise KeyError("%s is not a variable in the model object. Please ensure that you have "
                            "generated the cloud particle subcolumns before running this routine." %
                            in_prof_cloud_name_liq)
 
         if in_prof_cloud_name_ice not in model.ds.variables.keys():
-            raise KeyError("%s is not a variable in the model object. Please ensure that you have" +
+            raise KeyError("%s is not a variable in the model object. Please ensure that you have "
                            "generated the cloud particle subcolumns before running this routine." %
                            in_prof_cloud_name_ice)
 
-- 
2.43.0


From a7814409035f2341155a1b45b0bc06bdb7d6929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:06 +0000
Subject: [PATCH 66/67] fix: WRF reads the NSSL densities whatever the letter
 case of the scheme's name

---
 emc2/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 5f2bb98..729bfff 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -1333,7 +1333,7 @@ class WRF(Model):
 
         
         self.ds["QVAPOR"] = ds["QVAPOR"]
-        if mcphys_scheme == "nssl":
+        if mcphys_scheme.lower() == "nssl":
             x = ds["QGRAUP"] / ds["QVGRAUPEL"]
             x = np.where(np.isfinite(x), x, 900.)
             self.ds["RHO_GRAUPEL"] = xr.DataArray(x, dims=ds["QGRAUP"].dims)
-- 
2.43.0


From 1da9b5af8a8c8f0e857eeb3968ca767094d650e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:05 +0000
Subject: [PATCH 67/67] fix: the mean profile plot of an instrument returns its
 axes as documented

---
 emc2/plotting/subcol_display.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 055d1b3..835f295 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -1053,7 +1053,8 @@ class SubcolumnDisplay(Display):
         else:
             self.axes[subplot_index].set_xlim(x_lim)
 
-    
+        return self.axes[subplot_index]
+
     def plot_column_input_q_timeseries(self, variable, pressure_coords=True, title=None,
                                     subplot_index=(0, ), colorbar=True, cbar_label=None,
                                     log_plot=False, Mask_array=None, hatched_mask=False,
-- 
2.43.0

