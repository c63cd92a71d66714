From 85e716e956c16265599a541f0dc04f2accd94740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 1/9] fix: thermal occupation of complex energies no longer
 overflows to NaN

The complex exponential overflows for beta*Re(E) > 709 and dividing by the
resulting infinite complex number gives NaN, where the same energy passed as a
real number gives zero occupation.
---
 qcd-sme/src/common/thermal.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/qcd-sme/src/common/thermal.rs b/qcd-sme/src/common/thermal.rs
index 1e7e25a..2fd045a 100644
--- a/qcd-sme/src/common/thermal.rs
+++ b/qcd-sme/src/common/thermal.rs
@@ -163,6 +163,17 @@ pub(crate) mod inlines {
     };
     use crate::{Num, R};
 
+    // The inverse of `den`, vanishing when the exponential contained in `den`
+    // overflows (dividing by an infinite complex number yields NaN instead)
+    #[inline(always)]
+    fn inv_or_zero<T: Num>(den: T) -> T {
+        if den.abs().is_infinite() {
+            T::zero()
+        } else {
+            den.inv()
+        }
+    }
+
     #[inline(always)]
     pub fn fermi_momentum(m: R, mu: R) -> R {
         mu.mul_add(mu, -(m * m)).sqrt()
@@ -174,7 +185,7 @@ pub(crate) mod inlines {
         beta: R,
         mu: T2,
     ) -> T1 {
-        (statistic_distribution_exponential(en, beta, mu) + 1.).inv()
+        inv_or_zero(statistic_distribution_exponential(en, beta, mu) + 1.)
     }
 
     #[inline(always)]
@@ -195,8 +206,8 @@ pub(crate) mod inlines {
         beta: R,
         mu: T2,
     ) -> T1 {
-        (statistic_distribution_exponential(en, beta, mu) + 1.).inv()
-            + (statistic_distribution_exponential(en, beta, -mu) + 1.).inv()
+        inv_or_zero(statistic_distribution_exponential(en, beta, mu) + 1.)
+            + inv_or_zero(statistic_distribution_exponential(en, beta, -mu) + 1.)
     }
 
     #[inline(always)]
@@ -212,7 +223,7 @@ pub(crate) mod inlines {
 
     #[inline(always)]
     pub fn fermi_distribution_zero_chempot<T: Num>(en: T, beta: R) -> T {
-        (statistic_distribution_exponential_zero_chempot(en, beta) + 1.).inv()
+        inv_or_zero(statistic_distribution_exponential_zero_chempot(en, beta) + 1.)
     }
 
     #[inline(always)]
@@ -221,11 +232,11 @@ pub(crate) mod inlines {
         beta: R,
         mu: T2,
     ) -> T1 {
-        (statistic_distribution_exponential(en, beta, mu) - 1.).inv()
+        inv_or_zero(statistic_distribution_exponential(en, beta, mu) - 1.)
     }
 
     #[inline(always)]
     pub fn bose_distribution_zero_chempot<T: Num>(en: T, beta: R) -> T {
-        (statistic_distribution_exponential_zero_chempot(en, beta) - 1.).inv()
+        inv_or_zero(statistic_distribution_exponential_zero_chempot(en, beta) - 1.)
     }
 }
-- 
2.43.0


From 5fc2270ea6bbdff6a60b6ded14e1f34372ba8adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 2/9] fix: honour customized integration defaults at zero
 Matsubara frequency

The default tolerance was replaced by DEFAULT_TOL_INT_REPL whenever it equalled
the current default, i.e. always, so that set_default_tol_integral had no effect
on the zero-Matsubara gluon polarizations. Replace it only if never changed.
---
 qcd-sme/src/consts.rs                         | 11 ++-
 .../src/low_level/oneloop/thermal/gluon.rs    | 98 ++++++++++---------
 2 files changed, 60 insertions(+), 49 deletions(-)

diff --git a/qcd-sme/src/consts.rs b/qcd-sme/src/consts.rs
index a747912..b28859e 100644
--- a/qcd-sme/src/consts.rs
+++ b/qcd-sme/src/consts.rs
@@ -97,8 +97,11 @@ pub(crate) fn m_quark() -> R {
     unsafe { M_QUARK }
 }
 
+/// The default tolerance for numerical integrals, if never changed.
+pub(crate) const DEFAULT_TOL_INTEGRAL: R = 1E-10;
+
 /// The default tolerance for numerical integrals.
-static mut TOL_INTEGRAL: R = 1E-10;
+static mut TOL_INTEGRAL: R = DEFAULT_TOL_INTEGRAL;
 
 /// Get the default tolerance for numerical integrals. Equals `1E-10` if never
 /// changed.
@@ -126,8 +129,12 @@ pub(crate) fn tol_integral() -> R {
     unsafe { TOL_INTEGRAL }
 }
 
+/// The default maximum number of iterations for numerical integrals, if never
+/// changed.
+pub(crate) const DEFAULT_MAX_ITER_INTEGRAL: u32 = 50;
+
 /// The default maximum number of iterations for numerical integrals.
-static mut MAX_ITER_INTEGRAL: u32 = 50;
+static mut MAX_ITER_INTEGRAL: u32 = DEFAULT_MAX_ITER_INTEGRAL;
 
 /// Get the default maximum number of iterations for numerical integrals.
 /// Equals `50` if never changed.
diff --git a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
index fe9890b..fbadee7 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
@@ -576,7 +576,8 @@ pub mod zero_matsubara {
         use super::inlines;
         use crate::common::thermal::inlines::fermi_momentum;
         use crate::consts::{
-            get_default_integration_method, matsubara_reg, max_iter_integral, tol_integral,
+            get_default_integration_method, matsubara_reg, DEFAULT_MAX_ITER_INTEGRAL,
+            DEFAULT_TOL_INTEGRAL,
         };
         use crate::{C, R};
         use peroxide::numerical::integral::{integrate, Integral};
@@ -763,70 +764,73 @@ pub mod zero_matsubara {
         // default integration method to DEFAULT_TOL_INT_REPL. This does not increase
         // the error meaningfully, since the error due to EPS being non zero is larger
         // by at least two orders of magnitude (given the defaults at the time of writing).
-        pub fn polarization_glue_l_thermal_part_landau(p: R, m: R, beta: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
-            if let crate::Integral::G7K15(ti, mi) = integral {
+        pub(crate) fn default_integration_method() -> Integral {
+            let integral = get_default_integration_method();
+            match integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
-                    integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
+                Integral::G7K15(ti, mi)
+                    if ti == DEFAULT_TOL_INTEGRAL && mi == DEFAULT_MAX_ITER_INTEGRAL =>
+                {
+                    Integral::G7K15(DEFAULT_TOL_INT_REPL, mi)
                 }
+                _ => integral,
             }
-            polarization_glue_l_thermal_part_landau_w_method(p, m, beta, integral)
+        }
+
+        pub fn polarization_glue_l_thermal_part_landau(p: R, m: R, beta: R) -> R {
+            polarization_glue_l_thermal_part_landau_w_method(
+                p,
+                m,
+                beta,
+                default_integration_method(),
+            )
         }
 
         pub fn polarization_glue_t_thermal_part_landau(p: R, m: R, beta: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
-            if let crate::Integral::G7K15(ti, mi) = integral {
-                #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
-                    integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
-                }
-            }
-            polarization_glue_t_thermal_part_landau_w_method(p, m, beta, integral)
+            polarization_glue_t_thermal_part_landau_w_method(
+                p,
+                m,
+                beta,
+                default_integration_method(),
+            )
         }
 
         pub fn polarization_quark_l_thermal_part_landau(p: R, mq: R, beta: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
-            if let crate::Integral::G7K15(ti, mi) = integral {
-                #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
-                    integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
-                }
-            }
-            polarization_quark_l_thermal_part_landau_w_method(p, mq, beta, mu, integral)
+            polarization_quark_l_thermal_part_landau_w_method(
+                p,
+                mq,
+                beta,
+                mu,
+                default_integration_method(),
+            )
         }
 
         pub fn polarization_quark_t_thermal_part_landau(p: R, mq: R, beta: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
-            if let crate::Integral::G7K15(ti, mi) = integral {
-                #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
-                    integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
-                }
-            }
-            polarization_quark_t_thermal_part_landau_w_method(p, mq, beta, mu, integral)
+            polarization_quark_t_thermal_part_landau_w_method(
+                p,
+                mq,
+                beta,
+                mu,
+                default_integration_method(),
+            )
         }
 
         pub fn polarization_quark_l_thermal_part_zero_temp_landau(p: R, mq: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
-            if let crate::Integral::G7K15(ti, mi) = integral {
-                #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
-                    integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
-                }
-            }
-            polarization_quark_l_thermal_part_zero_temp_landau_w_method(p, mq, mu, integral)
+            polarization_quark_l_thermal_part_zero_temp_landau_w_method(
+                p,
+                mq,
+                mu,
+                default_integration_method(),
+            )
         }
 
         pub fn polarization_quark_t_thermal_part_zero_temp_landau(p: R, mq: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
-            if let crate::Integral::G7K15(ti, mi) = integral {
-                #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
-                    integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
-                }
-            }
-            polarization_quark_t_thermal_part_zero_temp_landau_w_method(p, mq, mu, integral)
+            polarization_quark_t_thermal_part_zero_temp_landau_w_method(
+                p,
+                mq,
+                mu,
+                default_integration_method(),
+            )
         }
     }
 
-- 
2.43.0


From 5b4bb7a47b412f72e5765884e3683c1567b7db5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 3/9] fix: *_w_field_config functions use the configuration's
 number of colors

---
 qcd-sme/build.rs                              |   2 -
 .../src/low_level/oneloop/thermal/gluon.rs    | 372 ++++++++++++++++--
 qcd-sme/src/qcd/thermal.rs                    | 110 ++++--
 3 files changed, 415 insertions(+), 69 deletions(-)

diff --git a/qcd-sme/build.rs b/qcd-sme/build.rs
index 4ebdef0..800b9e2 100644
--- a/qcd-sme/build.rs
+++ b/qcd-sme/build.rs
@@ -13,8 +13,6 @@ const CYTHON_HEADER_FILE: &str = "qcd_sme.pxd";
 const INCLUDE_GUARD: &str = "__QCD_SME_H__";
 
 fn main() {
-    println!("cargo::warning=There's a known bug in the *_w_field_config functions: you still have to call qcd_sme::consts::set_number_of_colors(nc) for nc != 3 and nf != 0. This bug also makes the functions not thread-safe with respect to a change of nc. I will eventually fix this but I'm too busy right now.");
-
     let crate_dir = path::PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap());
     let mut target_dir = crate_dir.join("target");
     // This crate depends on other crates and it will be built last, by which
diff --git a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
index fbadee7..b87ee53 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
@@ -10,7 +10,7 @@ pub use native::*;
 mod native {
     use super::inlines;
     use crate::common::thermal::inlines::fermi_momentum;
-    use crate::consts::get_default_integration_method;
+    use crate::consts::{get_default_integration_method, nc};
     use crate::{Num, C, R};
     use peroxide::numerical::integral::{integrate, Integral};
 
@@ -117,16 +117,29 @@ mod native {
         beta: R,
         mu: R,
         integral: Integral,
+    ) -> C {
+        polarization_quark_l_thermal_part_landau_w_nc(om, p, mq, beta, mu, integral, nc() as R)
+    }
+
+    pub(crate) fn polarization_quark_l_thermal_part_landau_w_nc<T1: Num, T2: Num>(
+        om: T1,
+        p: T2,
+        mq: R,
+        beta: R,
+        mu: R,
+        integral: Integral,
+        nc: R,
     ) -> C {
         integrate(
             |t| {
-                inlines::polarization_quark_l_thermal_part_landau_i(
+                inlines::polarization_quark_l_thermal_part_landau_i_w_nc(
                     (1. - t) / t,
                     om,
                     p,
                     mq,
                     beta,
                     mu,
+                    nc,
                 ) / (t * t)
             },
             (0., 1.),
@@ -141,16 +154,29 @@ mod native {
         beta: R,
         mu: R,
         integral: Integral,
+    ) -> C {
+        polarization_quark_t_thermal_part_landau_w_nc(om, p, mq, beta, mu, integral, nc() as R)
+    }
+
+    pub(crate) fn polarization_quark_t_thermal_part_landau_w_nc<T: Num>(
+        om: T,
+        p: R,
+        mq: R,
+        beta: R,
+        mu: R,
+        integral: Integral,
+        nc: R,
     ) -> C {
         integrate(
             |t| {
-                inlines::polarization_quark_t_thermal_part_landau_i(
+                inlines::polarization_quark_t_thermal_part_landau_i_w_nc(
                     (1. - t) / t,
                     om,
                     p,
                     mq,
                     beta,
                     mu,
+                    nc,
                 ) / (t * t)
             },
             (0., 1.),
@@ -164,12 +190,27 @@ mod native {
         mq: R,
         mu: R,
         integral: Integral,
+    ) -> C {
+        polarization_quark_l_thermal_part_zero_temp_landau_w_nc(om, p, mq, mu, integral, nc() as R)
+    }
+
+    pub(crate) fn polarization_quark_l_thermal_part_zero_temp_landau_w_nc<T1: Num, T2: Num>(
+        om: T1,
+        p: T2,
+        mq: R,
+        mu: R,
+        integral: Integral,
+        nc: R,
     ) -> C {
         if mu.abs() < mq.abs() {
             return C::new(0., 0.);
         };
         integrate(
-            |q| inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu),
+            |q| {
+                inlines::polarization_quark_l_thermal_part_zero_temp_landau_i_w_nc(
+                    q, om, p, mq, mu, nc,
+                )
+            },
             (0., fermi_momentum(mq, mu)),
             integral,
         )
@@ -181,12 +222,27 @@ mod native {
         mq: R,
         mu: R,
         integral: Integral,
+    ) -> C {
+        polarization_quark_t_thermal_part_zero_temp_landau_w_nc(om, p, mq, mu, integral, nc() as R)
+    }
+
+    pub(crate) fn polarization_quark_t_thermal_part_zero_temp_landau_w_nc<T: Num>(
+        om: T,
+        p: R,
+        mq: R,
+        mu: R,
+        integral: Integral,
+        nc: R,
     ) -> C {
         if mu.abs() < mq.abs() {
             return C::new(0., 0.);
         };
         integrate(
-            |q| inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu),
+            |q| {
+                inlines::polarization_quark_t_thermal_part_zero_temp_landau_i_w_nc(
+                    q, om, p, mq, mu, nc,
+                )
+            },
             (0., fermi_momentum(mq, mu)),
             integral,
         )
@@ -473,13 +529,14 @@ pub(crate) mod inlines {
     }
 
     #[inline(always)]
-    pub fn polarization_quark_l_thermal_part_landau_i<T1: Num, T2: Num>(
+    pub fn polarization_quark_l_thermal_part_landau_i_w_nc<T1: Num, T2: Num>(
         q: R,
         om: T1,
         p: T2,
         mq: R,
         beta: R,
         mu: R,
+        nc: R,
     ) -> C {
         let p2 = p * p;
         let s = om * om + p2.into();
@@ -488,7 +545,7 @@ pub(crate) mod inlines {
         let tl_opp = tlog_same_mass(q, -om, p, en);
         let t1 = (s - en * en * 4. + om * 4. * I * en) * tl;
         let t1_opp = (s - en * en * 4. - om * 4. * I * en) * tl_opp;
-        -(p2 * en * (nc() as R) * 2. * PI2).inv()
+        -(p2 * en * nc * 2. * PI2).inv()
             * fermi_distribution_double(en, beta, mu)
             * s
             * q
@@ -497,13 +554,26 @@ pub(crate) mod inlines {
     }
 
     #[inline(always)]
-    pub fn polarization_quark_t_thermal_part_landau_i<T: Num>(
+    pub fn polarization_quark_l_thermal_part_landau_i<T1: Num, T2: Num>(
+        q: R,
+        om: T1,
+        p: T2,
+        mq: R,
+        beta: R,
+        mu: R,
+    ) -> C {
+        polarization_quark_l_thermal_part_landau_i_w_nc(q, om, p, mq, beta, mu, nc() as R)
+    }
+
+    #[inline(always)]
+    pub fn polarization_quark_t_thermal_part_landau_i_w_nc<T: Num>(
         q: R,
         om: T,
         p: R,
         mq: R,
         beta: R,
         mu: R,
+        nc: R,
     ) -> C {
         let p2 = p * p;
         let om2 = om * om;
@@ -517,17 +587,30 @@ pub(crate) mod inlines {
         let tl_opp = tlog_same_mass(q, -om, p, en);
         let t1 = (b - c) * tl;
         let t1_opp = (b + c) * tl_opp;
-        -fermi_distribution_double(en, beta, mu) * q2 / (p2 * en * (nc() as R) * 4. * PI2)
+        -fermi_distribution_double(en, beta, mu) * q2 / (p2 * en * nc * 4. * PI2)
             * (a - (t1 + t1_opp) / (8. * q * p))
     }
 
     #[inline(always)]
-    pub fn polarization_quark_l_thermal_part_zero_temp_landau_i<T1: Num, T2: Num>(
+    pub fn polarization_quark_t_thermal_part_landau_i<T: Num>(
+        q: R,
+        om: T,
+        p: R,
+        mq: R,
+        beta: R,
+        mu: R,
+    ) -> C {
+        polarization_quark_t_thermal_part_landau_i_w_nc(q, om, p, mq, beta, mu, nc() as R)
+    }
+
+    #[inline(always)]
+    pub fn polarization_quark_l_thermal_part_zero_temp_landau_i_w_nc<T1: Num, T2: Num>(
         q: R,
         om: T1,
         p: T2,
         mq: R,
         mu: R,
+        nc: R,
     ) -> C {
         let p2 = p * p;
         let s = om * om + p2.into();
@@ -536,7 +619,7 @@ pub(crate) mod inlines {
         let tl_opp = tlog_same_mass(q, -om, p, en);
         let t1 = (s - en * en * 4. + om * 4. * I * en) * tl;
         let t1_opp = (s - en * en * 4. - om * 4. * I * en) * tl_opp;
-        -(p2 * en * (nc() as R) * 2. * PI2).inv()
+        -(p2 * en * nc * 2. * PI2).inv()
             * fermi_distribution_double_zero_temp(en, mu)
             * s
             * q
@@ -545,12 +628,24 @@ pub(crate) mod inlines {
     }
 
     #[inline(always)]
-    pub fn polarization_quark_t_thermal_part_zero_temp_landau_i<T: Num>(
+    pub fn polarization_quark_l_thermal_part_zero_temp_landau_i<T1: Num, T2: Num>(
+        q: R,
+        om: T1,
+        p: T2,
+        mq: R,
+        mu: R,
+    ) -> C {
+        polarization_quark_l_thermal_part_zero_temp_landau_i_w_nc(q, om, p, mq, mu, nc() as R)
+    }
+
+    #[inline(always)]
+    pub fn polarization_quark_t_thermal_part_zero_temp_landau_i_w_nc<T: Num>(
         q: R,
         om: T,
         p: R,
         mq: R,
         mu: R,
+        nc: R,
     ) -> C {
         let p2 = p * p;
         let om2 = om * om;
@@ -564,9 +659,20 @@ pub(crate) mod inlines {
         let tl_opp = tlog_same_mass(q, -om, p, en);
         let t1 = (b - c) * tl;
         let t1_opp = (b + c) * tl_opp;
-        -fermi_distribution_double_zero_temp(en, mu) * q2 / (p2 * en * (nc() as R) * 4. * PI2)
+        -fermi_distribution_double_zero_temp(en, mu) * q2 / (p2 * en * nc * 4. * PI2)
             * (a - (t1 + t1_opp) / (8. * q * p))
     }
+
+    #[inline(always)]
+    pub fn polarization_quark_t_thermal_part_zero_temp_landau_i<T: Num>(
+        q: R,
+        om: T,
+        p: R,
+        mq: R,
+        mu: R,
+    ) -> C {
+        polarization_quark_t_thermal_part_zero_temp_landau_i_w_nc(q, om, p, mq, mu, nc() as R)
+    }
 }
 
 pub mod zero_matsubara {
@@ -576,7 +682,7 @@ pub mod zero_matsubara {
         use super::inlines;
         use crate::common::thermal::inlines::fermi_momentum;
         use crate::consts::{
-            get_default_integration_method, matsubara_reg, DEFAULT_MAX_ITER_INTEGRAL,
+            get_default_integration_method, matsubara_reg, nc, DEFAULT_MAX_ITER_INTEGRAL,
             DEFAULT_TOL_INTEGRAL,
         };
         use crate::{C, R};
@@ -666,16 +772,28 @@ pub mod zero_matsubara {
             beta: R,
             mu: R,
             integral: Integral,
+        ) -> R {
+            polarization_quark_l_thermal_part_landau_w_nc(p, mq, beta, mu, integral, nc() as R)
+        }
+
+        pub(crate) fn polarization_quark_l_thermal_part_landau_w_nc(
+            p: R,
+            mq: R,
+            beta: R,
+            mu: R,
+            integral: Integral,
+            nc: R,
         ) -> R {
             integrate(
                 |t| {
-                    super::super::inlines::polarization_quark_l_thermal_part_landau_i(
+                    super::super::inlines::polarization_quark_l_thermal_part_landau_i_w_nc(
                         (1. - t) / t,
                         matsubara_reg(),
                         p,
                         mq,
                         beta,
                         mu,
+                        nc,
                     )
                     .re / (t * t)
                 },
@@ -690,16 +808,28 @@ pub mod zero_matsubara {
             beta: R,
             mu: R,
             integral: Integral,
+        ) -> R {
+            polarization_quark_t_thermal_part_landau_w_nc(p, mq, beta, mu, integral, nc() as R)
+        }
+
+        pub(crate) fn polarization_quark_t_thermal_part_landau_w_nc(
+            p: R,
+            mq: R,
+            beta: R,
+            mu: R,
+            integral: Integral,
+            nc: R,
         ) -> R {
             integrate(
                 |t| {
-                    super::super::inlines::polarization_quark_t_thermal_part_landau_i(
+                    super::super::inlines::polarization_quark_t_thermal_part_landau_i_w_nc(
                         (1. - t) / t,
                         matsubara_reg(),
                         p,
                         mq,
                         beta,
                         mu,
+                        nc,
                     )
                     .re / (t * t)
                 },
@@ -713,18 +843,29 @@ pub mod zero_matsubara {
             mq: R,
             mu: R,
             integral: Integral,
+        ) -> R {
+            polarization_quark_l_thermal_part_zero_temp_landau_w_nc(p, mq, mu, integral, nc() as R)
+        }
+
+        pub(crate) fn polarization_quark_l_thermal_part_zero_temp_landau_w_nc(
+            p: R,
+            mq: R,
+            mu: R,
+            integral: Integral,
+            nc: R,
         ) -> R {
             if mu.abs() < mq.abs() {
                 return 0.;
             };
             integrate(
                 |q| {
-                    super::super::inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(
+                    super::super::inlines::polarization_quark_l_thermal_part_zero_temp_landau_i_w_nc(
                         q,
                         matsubara_reg(),
                         p,
                         mq,
                         mu,
+                        nc,
                     )
                     .re
                 },
@@ -738,18 +879,29 @@ pub mod zero_matsubara {
             mq: R,
             mu: R,
             integral: Integral,
+        ) -> R {
+            polarization_quark_t_thermal_part_zero_temp_landau_w_nc(p, mq, mu, integral, nc() as R)
+        }
+
+        pub(crate) fn polarization_quark_t_thermal_part_zero_temp_landau_w_nc(
+            p: R,
+            mq: R,
+            mu: R,
+            integral: Integral,
+            nc: R,
         ) -> R {
             if mu.abs() < mq.abs() {
                 return 0.;
             };
             integrate(
                 |q| {
-                    super::super::inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(
+                    super::super::inlines::polarization_quark_t_thermal_part_zero_temp_landau_i_w_nc(
                         q,
                         matsubara_reg(),
                         p,
                         mq,
                         mu,
+                        nc,
                     )
                     .re
                 },
@@ -983,42 +1135,86 @@ pub mod zero_matsubara {
         }
 
         #[inline(always)]
-        pub fn polarization_quark_l_thermal_part_landau_i(q: R, p: R, mq: R, beta: R, mu: R) -> R {
+        pub fn polarization_quark_l_thermal_part_landau_i_w_nc(
+            q: R,
+            p: R,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: R,
+        ) -> R {
             let s = p * p;
             let en = energy(q, mq);
             let t1 = (en * en).mul_add(-4., s) / (4. * q * p) * tlog_same_mass(q, p);
-            -fermi_distribution_double(en, beta, mu) * q * q / (en * (nc() as R) * 2. * PI2)
-                * (1. - t1)
+            -fermi_distribution_double(en, beta, mu) * q * q / (en * nc * 2. * PI2) * (1. - t1)
         }
 
         #[inline(always)]
-        pub fn polarization_quark_t_thermal_part_landau_i(q: R, p: R, mq: R, beta: R, mu: R) -> R {
+        pub fn polarization_quark_l_thermal_part_landau_i(q: R, p: R, mq: R, beta: R, mu: R) -> R {
+            polarization_quark_l_thermal_part_landau_i_w_nc(q, p, mq, beta, mu, nc() as R)
+        }
+
+        #[inline(always)]
+        pub fn polarization_quark_t_thermal_part_landau_i_w_nc(
+            q: R,
+            p: R,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: R,
+        ) -> R {
             let p2 = p * p;
             let q2 = q * q;
             let en = energy(q, mq);
             let t1 = 4.0f64.mul_add(q2, p2) * tlog_same_mass(q, p);
-            -fermi_distribution_double(en, beta, mu) * q2 / (en * (nc() as R) * 4. * PI2)
+            -fermi_distribution_double(en, beta, mu) * q2 / (en * nc * 4. * PI2)
                 * (1. - t1 / (4. * q * p))
         }
 
         #[inline(always)]
-        pub fn polarization_quark_l_thermal_part_zero_temp_landau_i(q: R, p: R, mq: R, mu: R) -> R {
+        pub fn polarization_quark_t_thermal_part_landau_i(q: R, p: R, mq: R, beta: R, mu: R) -> R {
+            polarization_quark_t_thermal_part_landau_i_w_nc(q, p, mq, beta, mu, nc() as R)
+        }
+
+        #[inline(always)]
+        pub fn polarization_quark_l_thermal_part_zero_temp_landau_i_w_nc(
+            q: R,
+            p: R,
+            mq: R,
+            mu: R,
+            nc: R,
+        ) -> R {
             let s = p * p;
             let en = energy(q, mq);
             let t1 = (en * en).mul_add(-4., s) / (4. * q * p) * tlog_same_mass(q, p);
-            -fermi_distribution_double_zero_temp(en, mu) * q * q / (en * (nc() as R) * 2. * PI2)
-                * (1. - t1)
+            -fermi_distribution_double_zero_temp(en, mu) * q * q / (en * nc * 2. * PI2) * (1. - t1)
         }
 
         #[inline(always)]
-        pub fn polarization_quark_t_thermal_part_zero_temp_landau_i(q: R, p: R, mq: R, mu: R) -> R {
+        pub fn polarization_quark_l_thermal_part_zero_temp_landau_i(q: R, p: R, mq: R, mu: R) -> R {
+            polarization_quark_l_thermal_part_zero_temp_landau_i_w_nc(q, p, mq, mu, nc() as R)
+        }
+
+        #[inline(always)]
+        pub fn polarization_quark_t_thermal_part_zero_temp_landau_i_w_nc(
+            q: R,
+            p: R,
+            mq: R,
+            mu: R,
+            nc: R,
+        ) -> R {
             let p2 = p * p;
             let q2 = q * q;
             let en = energy(q, mq);
             let t1 = 4.0f64.mul_add(q2, p2) * tlog_same_mass(q, p);
-            -fermi_distribution_double_zero_temp(en, mu) * q2 / (en * (nc() as R) * 4. * PI2)
+            -fermi_distribution_double_zero_temp(en, mu) * q2 / (en * nc * 4. * PI2)
                 * (1. - t1 / (4. * q * p))
         }
+
+        #[inline(always)]
+        pub fn polarization_quark_t_thermal_part_zero_temp_landau_i(q: R, p: R, mq: R, mu: R) -> R {
+            polarization_quark_t_thermal_part_zero_temp_landau_i_w_nc(q, p, mq, mu, nc() as R)
+        }
     }
 }
 
@@ -1028,7 +1224,7 @@ pub mod zero_momentum {
     mod native {
         use super::inlines;
         use crate::common::thermal::inlines::fermi_momentum;
-        use crate::consts::get_default_integration_method;
+        use crate::consts::{get_default_integration_method, nc};
         use crate::{Num, C, R};
         use peroxide::numerical::integral::{integrate, Integral};
 
@@ -1116,15 +1312,27 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
             integral: Integral,
+        ) -> C {
+            polarization_quark_l_thermal_part_landau_w_nc(om, mq, beta, mu, integral, nc() as R)
+        }
+
+        pub(crate) fn polarization_quark_l_thermal_part_landau_w_nc<T: Num>(
+            om: T,
+            mq: R,
+            beta: R,
+            mu: R,
+            integral: Integral,
+            nc: R,
         ) -> C {
             integrate(
                 |t| {
-                    inlines::polarization_quark_l_thermal_part_landau_i(
+                    inlines::polarization_quark_l_thermal_part_landau_i_w_nc(
                         (1. - t) / t,
                         om,
                         mq,
                         beta,
                         mu,
+                        nc,
                     )
                     .into()
                         / (t * t)
@@ -1140,15 +1348,27 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
             integral: Integral,
+        ) -> C {
+            polarization_quark_t_thermal_part_landau_w_nc(om, mq, beta, mu, integral, nc() as R)
+        }
+
+        pub(crate) fn polarization_quark_t_thermal_part_landau_w_nc<T: Num>(
+            om: T,
+            mq: R,
+            beta: R,
+            mu: R,
+            integral: Integral,
+            nc: R,
         ) -> C {
             integrate(
                 |t| {
-                    inlines::polarization_quark_t_thermal_part_landau_i(
+                    inlines::polarization_quark_t_thermal_part_landau_i_w_nc(
                         (1. - t) / t,
                         om,
                         mq,
                         beta,
                         mu,
+                        nc,
                     )
                     .into()
                         / (t * t)
@@ -1163,14 +1383,26 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
             integral: Integral,
+        ) -> C {
+            polarization_quark_l_thermal_part_zero_temp_landau_w_nc(om, mq, mu, integral, nc() as R)
+        }
+
+        pub(crate) fn polarization_quark_l_thermal_part_zero_temp_landau_w_nc<T: Num>(
+            om: T,
+            mq: R,
+            mu: R,
+            integral: Integral,
+            nc: R,
         ) -> C {
             if mu.abs() < mq.abs() {
                 return C::new(0., 0.);
             };
             integrate(
                 |q| {
-                    inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu)
-                        .into()
+                    inlines::polarization_quark_l_thermal_part_zero_temp_landau_i_w_nc(
+                        q, om, mq, mu, nc,
+                    )
+                    .into()
                 },
                 (0., fermi_momentum(mq, mu)),
                 integral,
@@ -1182,14 +1414,26 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
             integral: Integral,
+        ) -> C {
+            polarization_quark_t_thermal_part_zero_temp_landau_w_nc(om, mq, mu, integral, nc() as R)
+        }
+
+        pub(crate) fn polarization_quark_t_thermal_part_zero_temp_landau_w_nc<T: Num>(
+            om: T,
+            mq: R,
+            mu: R,
+            integral: Integral,
+            nc: R,
         ) -> C {
             if mu.abs() < mq.abs() {
                 return C::new(0., 0.);
             };
             integrate(
                 |q| {
-                    inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu)
-                        .into()
+                    inlines::polarization_quark_t_thermal_part_zero_temp_landau_i_w_nc(
+                        q, om, mq, mu, nc,
+                    )
+                    .into()
                 },
                 (0., fermi_momentum(mq, mu)),
                 integral,
@@ -1384,24 +1628,48 @@ pub mod zero_momentum {
         }
 
         #[inline(always)]
-        pub fn polarization_quark_l_thermal_part_landau_i<T: Num>(
+        pub fn polarization_quark_l_thermal_part_landau_i_w_nc<T: Num>(
             q: R,
             om: T,
             mq: R,
             beta: R,
             mu: R,
+            nc: R,
         ) -> T {
             let en = energy(q, mq);
             let en2 = en * en;
             let q2 = q * q;
 
-            ((om * om + 4. * en2) * en * 3. * PI2 * (nc() as R)).inv()
+            ((om * om + 4. * en2) * en * 3. * PI2 * nc).inv()
                 * 2.
                 * fermi_distribution_double(en, beta, mu)
                 * q2
                 * 3.0f64.mul_add(-en2, q2)
         }
 
+        #[inline(always)]
+        pub fn polarization_quark_l_thermal_part_landau_i<T: Num>(
+            q: R,
+            om: T,
+            mq: R,
+            beta: R,
+            mu: R,
+        ) -> T {
+            polarization_quark_l_thermal_part_landau_i_w_nc(q, om, mq, beta, mu, nc() as R)
+        }
+
+        #[inline(always)]
+        pub fn polarization_quark_t_thermal_part_landau_i_w_nc<T: Num>(
+            q: R,
+            om: T,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: R,
+        ) -> T {
+            polarization_quark_l_thermal_part_landau_i_w_nc(q, om, mq, beta, mu, nc)
+        }
+
         #[inline(always)]
         pub fn polarization_quark_t_thermal_part_landau_i<T: Num>(
             q: R,
@@ -1410,27 +1678,49 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
         ) -> T {
-            polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu)
+            polarization_quark_t_thermal_part_landau_i_w_nc(q, om, mq, beta, mu, nc() as R)
         }
 
         #[inline(always)]
-        pub fn polarization_quark_l_thermal_part_zero_temp_landau_i<T: Num>(
+        pub fn polarization_quark_l_thermal_part_zero_temp_landau_i_w_nc<T: Num>(
             q: R,
             om: T,
             mq: R,
             mu: R,
+            nc: R,
         ) -> T {
             let en = energy(q, mq);
             let en2 = en * en;
             let q2 = q * q;
 
-            ((om * om + 4. * en2) * en * 3. * PI2 * (nc() as R)).inv()
+            ((om * om + 4. * en2) * en * 3. * PI2 * nc).inv()
                 * 2.
                 * fermi_distribution_double_zero_temp(en, mu)
                 * q2
                 * 3.0f64.mul_add(-en2, q2)
         }
 
+        #[inline(always)]
+        pub fn polarization_quark_l_thermal_part_zero_temp_landau_i<T: Num>(
+            q: R,
+            om: T,
+            mq: R,
+            mu: R,
+        ) -> T {
+            polarization_quark_l_thermal_part_zero_temp_landau_i_w_nc(q, om, mq, mu, nc() as R)
+        }
+
+        #[inline(always)]
+        pub fn polarization_quark_t_thermal_part_zero_temp_landau_i_w_nc<T: Num>(
+            q: R,
+            om: T,
+            mq: R,
+            mu: R,
+            nc: R,
+        ) -> T {
+            polarization_quark_l_thermal_part_zero_temp_landau_i_w_nc(q, om, mq, mu, nc)
+        }
+
         #[inline(always)]
         pub fn polarization_quark_t_thermal_part_zero_temp_landau_i<T: Num>(
             q: R,
@@ -1438,7 +1728,7 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
         ) -> T {
-            polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+            polarization_quark_t_thermal_part_zero_temp_landau_i_w_nc(q, om, mq, mu, nc() as R)
         }
     }
 }
diff --git a/qcd-sme/src/qcd/thermal.rs b/qcd-sme/src/qcd/thermal.rs
index 24efcff..62b824e 100644
--- a/qcd-sme/src/qcd/thermal.rs
+++ b/qcd-sme/src/qcd/thermal.rs
@@ -5,7 +5,7 @@ pub mod ghost {
 }
 
 pub mod gluon {
-    use crate::consts::nf;
+    use crate::consts::{get_default_integration_method, nf};
     use crate::low_level::oneloop::thermal::gluon as gluon_thermal_parts;
     use crate::qcd::gluon as gluon_vac;
     use crate::qcd::FieldConfig;
@@ -111,8 +111,14 @@ pub mod gluon {
             .quarks_internal
             .iter()
             .map(|qi| {
-                gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
-                    om, p, qi.mq, beta, mu,
+                gluon_thermal_parts::polarization_quark_l_thermal_part_landau_w_nc(
+                    om,
+                    p,
+                    qi.mq,
+                    beta,
+                    mu,
+                    get_default_integration_method(),
+                    config.nc as R,
                 ) * (qi.nf as R)
             })
             .sum();
@@ -138,8 +144,14 @@ pub mod gluon {
             .quarks_internal
             .iter()
             .map(|qi| {
-                gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
-                    om, p, qi.mq, beta, mu,
+                gluon_thermal_parts::polarization_quark_t_thermal_part_landau_w_nc(
+                    om,
+                    p,
+                    qi.mq,
+                    beta,
+                    mu,
+                    get_default_integration_method(),
+                    config.nc as R,
                 ) * (qi.nf as R)
             })
             .sum();
@@ -209,8 +221,13 @@ pub mod gluon {
             .quarks_internal
             .iter()
             .map(|qi| {
-                gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
-                    om, p, qi.mq, mu,
+                gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau_w_nc(
+                    om,
+                    p,
+                    qi.mq,
+                    mu,
+                    get_default_integration_method(),
+                    config.nc as R,
                 ) * (qi.nf as R)
             })
             .sum();
@@ -232,8 +249,13 @@ pub mod gluon {
             .quarks_internal
             .iter()
             .map(|qi| {
-                gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
-                    om, p, qi.mq, mu,
+                gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau_w_nc(
+                    om,
+                    p,
+                    qi.mq,
+                    mu,
+                    get_default_integration_method(),
+                    config.nc as R,
                 ) * (qi.nf as R)
             })
             .sum();
@@ -473,8 +495,13 @@ pub mod zero_matsubara {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
-                        p, qi.mq, beta, mu,
+                    gluon_thermal_parts::polarization_quark_l_thermal_part_landau_w_nc(
+                        p,
+                        qi.mq,
+                        beta,
+                        mu,
+                        gluon_thermal_parts::default_integration_method(),
+                        config.nc as R,
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -499,8 +526,13 @@ pub mod zero_matsubara {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
-                        p, qi.mq, beta, mu,
+                    gluon_thermal_parts::polarization_quark_t_thermal_part_landau_w_nc(
+                        p,
+                        qi.mq,
+                        beta,
+                        mu,
+                        gluon_thermal_parts::default_integration_method(),
+                        config.nc as R,
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -563,8 +595,12 @@ pub mod zero_matsubara {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
-                        p, qi.mq, mu,
+                    gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau_w_nc(
+                        p,
+                        qi.mq,
+                        mu,
+                        gluon_thermal_parts::default_integration_method(),
+                        config.nc as R,
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -584,8 +620,12 @@ pub mod zero_matsubara {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
-                        p, qi.mq, mu,
+                    gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau_w_nc(
+                        p,
+                        qi.mq,
+                        mu,
+                        gluon_thermal_parts::default_integration_method(),
+                        config.nc as R,
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -639,7 +679,7 @@ pub mod zero_momentum {
     }
 
     pub mod gluon {
-        use crate::consts::nf;
+        use crate::consts::{get_default_integration_method, nf};
         use crate::low_level::oneloop::thermal::gluon::zero_momentum as gluon_thermal_parts;
         use crate::qcd::gluon as gluon_vac;
         use crate::qcd::FieldConfig;
@@ -744,8 +784,13 @@ pub mod zero_momentum {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
-                        om, qi.mq, beta, mu,
+                    gluon_thermal_parts::polarization_quark_l_thermal_part_landau_w_nc(
+                        om,
+                        qi.mq,
+                        beta,
+                        mu,
+                        get_default_integration_method(),
+                        config.nc as R,
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -770,8 +815,13 @@ pub mod zero_momentum {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
-                        om, qi.mq, beta, mu,
+                    gluon_thermal_parts::polarization_quark_t_thermal_part_landau_w_nc(
+                        om,
+                        qi.mq,
+                        beta,
+                        mu,
+                        get_default_integration_method(),
+                        config.nc as R,
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -835,8 +885,12 @@ pub mod zero_momentum {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
-                        om, qi.mq, mu,
+                    gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau_w_nc(
+                        om,
+                        qi.mq,
+                        mu,
+                        get_default_integration_method(),
+                        config.nc as R,
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -857,8 +911,12 @@ pub mod zero_momentum {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
-                        om, qi.mq, mu,
+                    gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau_w_nc(
+                        om,
+                        qi.mq,
+                        mu,
+                        get_default_integration_method(),
+                        config.nc as R,
                     ) * (qi.nf as R)
                 })
                 .sum();
-- 
2.43.0


From 6028c41116a9ec199a3a144b29cf210b106c8485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 4/9] fix: fermi_momentum is exact at the threshold instead of
 possibly NaN

---
 qcd-sme/src/common/thermal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qcd-sme/src/common/thermal.rs b/qcd-sme/src/common/thermal.rs
index 2fd045a..5c07520 100644
--- a/qcd-sme/src/common/thermal.rs
+++ b/qcd-sme/src/common/thermal.rs
@@ -176,7 +176,8 @@ pub(crate) mod inlines {
 
     #[inline(always)]
     pub fn fermi_momentum(m: R, mu: R) -> R {
-        mu.mul_add(mu, -(m * m)).sqrt()
+        // The product form is exact at the threshold: it vanishes for abs(mu)=m
+        ((mu - m) * (mu + m)).sqrt()
     }
 
     #[inline(always)]
-- 
2.43.0


From 7d4a171caa6368c7c1fbb6361b946bc8822ff6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 5/9] fix: is_deconfined_phase treats plateaus of the boundary
 as confined

---
 tc_long_prop/src/lib.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/tc_long_prop/src/lib.rs b/tc_long_prop/src/lib.rs
index 514948f..160e09d 100644
--- a/tc_long_prop/src/lib.rs
+++ b/tc_long_prop/src/lib.rs
@@ -159,16 +159,12 @@ pub fn is_deconfined_phase(mu: R, t: R, phase_boundary: &[(R, R)]) -> bool {
     }
 
     // We scan from lower to higher chemical potentials. If the chemical
-    // potentials match we compare temperatures, if the temperatures match
-    // we compare chemical potentials. Otherwise we interpolate (read below
-    // and compare temperatures.
+    // potentials match we compare temperatures. Otherwise we interpolate (read
+    // below) and compare temperatures.
     for (i, (mmu, tt)) in phase_boundary.iter().enumerate() {
         if *mmu == mu {
             return t > *tt;
         }
-        if *tt == t {
-            return mu > *mmu;
-        }
         if *mmu > mu {
             // mmu is the smallest chemical potential in our set greater than mu,
             // therefore mu0 must be the largest chemical potential in our set less
-- 
2.43.0


From 1b71361add492c38e8e8bc9dea175e46aefd53d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 6/9] fix: zero-Matsubara ghost self-energy integrates the
 regulated integrand

The integrand in the strict Matsubara limit has a principal-value pole, which
the adaptive quadrature cannot handle (errors of order one, very slow).
---
 qcd-sme/src/low_level/oneloop/thermal/ghost.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/qcd-sme/src/low_level/oneloop/thermal/ghost.rs b/qcd-sme/src/low_level/oneloop/thermal/ghost.rs
index e8cd449..9e7ab99 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/ghost.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/ghost.rs
@@ -94,7 +94,8 @@ pub mod zero_matsubara {
 
     mod native {
         use super::inlines;
-        use crate::consts::get_default_integration_method;
+        use crate::consts::matsubara_reg;
+        use crate::low_level::oneloop::thermal::gluon::zero_matsubara::default_integration_method;
         use crate::{C, R};
         use peroxide::numerical::integral::{integrate, Integral};
 
@@ -108,10 +109,19 @@ pub mod zero_matsubara {
             beta: R,
             integral: Integral,
         ) -> R {
+            // In the Matsubara limit the integrand has a pole, to be integrated in
+            // the principal-value sense: we need to use the ordinary function at the
+            // regulator frequency, exactly like for the gluon polarizations.
             integrate(
                 |t| {
-                    inlines::self_energy_thermal_part_landau_i((1. - t) / t, p, m, beta).re
-                        / (t * t)
+                    super::super::inlines::self_energy_thermal_part_landau_i(
+                        (1. - t) / t,
+                        matsubara_reg(),
+                        p,
+                        m,
+                        beta,
+                    )
+                    .re / (t * t)
                 },
                 (0., 1.),
                 integral,
@@ -119,7 +129,7 @@ pub mod zero_matsubara {
         }
 
         pub fn self_energy_thermal_part_landau(p: R, m: R, beta: R) -> R {
-            self_energy_thermal_part_landau_w_method(p, m, beta, get_default_integration_method())
+            self_energy_thermal_part_landau_w_method(p, m, beta, default_integration_method())
         }
     }
 
-- 
2.43.0


From 68a43c2678f1d940c39bc137ddfd9c5a8dcd1651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 7/9] fix: chemical potential brackets the root of the charge
 density

The secant search started from guesses proportional to the density itself and
panicked or did not come back for many ordinary inputs (for instance m = 0.5,
beta = 100, n = 0.01).
---
 qcd-sme/src/qcd/thermal.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/qcd-sme/src/qcd/thermal.rs b/qcd-sme/src/qcd/thermal.rs
index 62b824e..51f69bd 100644
--- a/qcd-sme/src/qcd/thermal.rs
+++ b/qcd-sme/src/qcd/thermal.rs
@@ -310,7 +310,6 @@ pub mod gluon {
 pub mod quark {
     use crate::common::thermal::inlines::fermi_momentum;
     use crate::consts::{get_default_integration_method, nc};
-    use crate::utils::find_root;
     use crate::{types::Integral, R};
     use peroxide::numerical::integral::integrate;
     use std::f64::consts::PI;
@@ -342,14 +341,30 @@ pub mod quark {
         if n == 0. {
             return 0.;
         }
-        find_root(
-            &|mu| n - charge_density_with_method(m, beta, mu, integral),
-            (0.5 * n, n),
-            integral.get_tol(),
-            1000,
-        )
-        .unwrap()
-        .0
+        // The charge density is odd and increasing in the chemical potential, and
+        // it increases with the temperature: the chemical potential is bracketed
+        // by zero and its zero-temperature value. Secant steps from guesses that
+        // know nothing about the mass and the temperature need not converge, so
+        // keep the root bracketed (Illinois algorithm).
+        let f = |mu| n - charge_density_with_method(m, beta, mu, integral);
+        let tol = integral.get_tol();
+        let (mut mu0, mut f0) = (0., n);
+        let mut mu1 = chemical_potential_zero_temp(m, n);
+        let mut f1 = f(mu1);
+        for _ in 0..200 {
+            if f1.abs() < tol || (mu1 - mu0).abs() <= R::EPSILON * mu1.abs() {
+                break;
+            }
+            let mu2 = (mu0 * f1 - mu1 * f0) / (f1 - f0);
+            let f2 = f(mu2);
+            if f2 * f1 < 0. {
+                (mu0, f0) = (mu1, f1);
+            } else {
+                f0 *= 0.5;
+            }
+            (mu1, f1) = (mu2, f2);
+        }
+        mu1
     }
 
     pub fn chemical_potential(m: R, beta: R, n: R) -> R {
-- 
2.43.0


From 01555f0b67e8e1278662d54a3dff98989f25f870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 8/9] fix: name the momentum argument of exported
 zero-Matsubara polarizations p

---
 qcd-sme/src/low_level/oneloop/thermal/gluon.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
index b87ee53..37070e3 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
@@ -993,21 +993,21 @@ pub mod zero_matsubara {
         #[no_mangle]
         pub extern "C" fn oneloop__zero_matsubara__gluon__polarization_glue_l_thermal_part_landau_i(
             q: R,
-            om: R,
+            p: R,
             m: R,
             beta: R,
         ) -> C {
-            inlines::polarization_glue_l_thermal_part_landau_i(q, om, m, beta)
+            inlines::polarization_glue_l_thermal_part_landau_i(q, p, m, beta)
         }
 
         #[no_mangle]
         pub extern "C" fn oneloop__zero_matsubara__gluon__polarization_glue_t_thermal_part_landau_i(
             q: R,
-            om: R,
+            p: R,
             m: R,
             beta: R,
         ) -> C {
-            inlines::polarization_glue_t_thermal_part_landau_i(q, om, m, beta)
+            inlines::polarization_glue_t_thermal_part_landau_i(q, p, m, beta)
         }
 
         #[no_mangle]
-- 
2.43.0


From 3edcab226fbf310105ab9186f3220d40d4562283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:18 +0000
Subject: [PATCH 9/9] fix: keep the sign of a vanishing imaginary part in
 complex reciprocals

Vacuum functions evaluated exactly on the cut from above mixed the two sides of the
cut: the reciprocal 1/s turned -0 into +0 before a square root and a logarithm.
---
 qcd-sme/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcd-sme/src/types.rs b/qcd-sme/src/types.rs
index 9768594..ebf84c5 100644
--- a/qcd-sme/src/types.rs
+++ b/qcd-sme/src/types.rs
@@ -111,7 +111,7 @@ impl Num for C {
 
     #[inline(always)]
     fn inv(&self) -> Self {
-        1. / self
+        (*self as Self).inv()
     }
 
     #[inline(always)]
-- 
2.43.0

