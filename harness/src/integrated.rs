//! C09 (integrated part), C12, C14..C17: integrated self-energies, dressings and propagators.
use crate::ea::*;
use crate::fw::*;
use crate::gens::*;
use crate::pts::*;
use crate::quad;
use crate::refs::{self, Fam};
use crate::registry::{Fun, FUNS};
use crate::vac::Reset;
use proptest::prelude::*;
use qcd_sme::consts;
use qcd_sme::qcd::FieldConfig;
use qcd_sme::Integral;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

pub const PRE: f64 = 16. * PI * PI / 3.;

pub fn nocfg() -> &'static FieldConfig {
    crate::integrands::dummy_cfg()
}
fn zt(n: &str) -> bool {
    n.contains("zero_temp")
}
/// Integrated low-level functions without an explicit method.
fn plain() -> Vec<&'static Fun> {
    FUNS.iter().filter(|f| f.name.contains("thermal_part") && !f.name.ends_with("_i") && !f.name.ends_with("_w_method")).collect()
}
fn of_fam(v: Vec<&'static Fun>, fm: Fam) -> Vec<&'static Fun> {
    v.into_iter().filter(|f| fam(f.name) == fm).collect()
}
/// Loop-momentum points around which the integrand varies quickly.
fn centres(p: &Pt, fm: Fam, mass: f64) -> Vec<(f64, f64)> {
    let w = p.om().norm();
    let mut v = vec![(0., 1e-4 / p.beta)];
    let om2 = (p.om() * p.om()).re;
    let pp = if fm == Fam::ZMom { 0. } else { p.p };
    for d in [0., mass * mass, -mass * mass] {
        let s = pp * pp + om2 + d;
        if pp > 0. {
            v.push((s.abs() / (2. * pp), 1e-3 * w));
        }
        // thresholds on the real-time side: energies around |Im om|/2
        let e = (s.abs().sqrt() / 2.).max(1e-6);
        v.push((e, 1e-3 * p.om().re.abs().max(1e-3)));
        let y = p.om().im.abs();
        if y > 0. {
            for sg in [1., -1.] {
                v.push((((s.abs() * y + sg * pp * (s.abs() * s.abs()).sqrt()) / (2. * s.abs().max(1e-9))).abs(), 1e-2 * p.om().re.abs()));
            }
        }
    }
    v
}
/// Integral of the integrand `fi` over the loop momentum.
pub fn loop_integral(fi: &Fun, p: &Pt, fm: Fam) -> Option<(C, f64)> {
    let quark = fi.name.contains("quark");
    let mass = if quark { p.mq } else { p.m };
    let top = if zt(fi.name) {
        if p.mu.abs() <= mass {
            return Some((C::new(0., 0.), 0.));
        }
        ((p.mu.abs() - mass) * (p.mu.abs() + mass)).sqrt()
    } else {
        50. / p.beta + if quark { p.mu.abs() } else { 0. }
    };
    let mut cs = centres(p, fm, mass);
    if !zt(fi.name) && quark && p.mu.abs() > mass {
        cs.push((((p.mu.abs() - mass) * (p.mu.abs() + mass)).sqrt(), 0.3 / p.beta));
    }
    let e = quad::graded(0., top, &cs);
    let mut a = p.argv(fi);
    let v = fi.vars.iter().find(|v| a.iter().enumerate().all(|(i, z)| z.im == 0. || v.mask >> i & 1 == 1))?;
    let iq = fi.args.iter().position(|&n| n == "q").unwrap();
    a[iq] = C::new(1., 0.);
    let a = std::cell::RefCell::new(a);
    let f = |q: f64| {
        let mut a = a.borrow_mut();
        a[iq].re = q;
        (v.f)(&crate::registry::Ctx { a: &a, integral: G7, cfg: nocfg() })
    };
    let r = quad::adaptive(&e, 1e-10, 60000, &f);
    (r.0.re.is_finite() && r.0.im.is_finite()).then_some(r)
}
/// The point as the integrated function of this family sees it (zero-Matsubara functions use the regulator).
fn seen(fm: Fam, p: &Pt, reg: f64) -> Pt {
    let mut p = p.clone();
    if fm == Fam::ZMat {
        p.om = (reg, 0.);
    }
    p
}
fn gen_i(name: &str) -> &'static Fun {
    fun(&(name.replace("zero_matsubara::", "").trim_end_matches("_w_method").to_string() + "_i"))
}
/// The quadratures of the library are adaptive and their error estimate occasionally (about once in 1e3..1e4 calls)
/// misses a logarithmic peak by accident. A discrepancy is reported only when it persists at perturbed points.
pub fn persistent(p: &Pt, ck: &dyn Fn(&Pt) -> Result<bool, String>) -> Result<bool, String> {
    let first = match ck(p) {
        Ok(h) => return Ok(h),
        Err(e) => e,
    };
    for x in [1.0031, 0.9873, 1.0213, 0.9641, 1.0457, 0.9379] {
        let mut a = p.clone();
        a.p *= x;
        a.om = (a.om.0 * (2. - x), a.om.1);
        a.beta *= 1. + (x - 1.) / 3.;
        if ck(&a).is_ok() {
            return Ok(false);
        }
    }
    Err(first)
}
fn c14_integral(fm: Fam, p: &Pt) -> Res {
    let mut hit = false;
    for f in of_fam(plain(), fm) {
        hit |= persistent(p, &|p| {
            let Some(got) = eval(f, p, nocfg()) else { return Ok(false) };
            let fi = gen_i(f.name);
            let Some((mut want, err)) = loop_integral(fi, &seen(fm, p, 1e-5), fm) else { return Ok(false) };
            if fm == Fam::ZMat {
                want.im = 0.;
            }
            let tol = if fm == Fam::ZMat { 5e-7 + 1e-6 * want.norm() } else { 1e-8 + 1e-7 * want.norm() } + 30. * err;
            let d = (got - want).norm();
            if d.is_nan() || d > tol {
                return Err(format!("{} = {got:e} but the loop integral of its integrand is {want:e} (|diff| {d:e} > {tol:e})", f.name));
            }
            Ok(tol < 1e-3 * want.norm())
        })?;
    }
    Ok(if hit { Hit("resolved") } else { Triv("all below the tolerance") })
}
/// Explicit methods, wide hierarchies of scales, tolerance adapted to the magnitude of the result.
fn c14_methods(fm: Fam, p: &Pt, k: usize, u: f64) -> Res {
    let mut hit = false;
    for f in of_fam(FUNS.iter().filter(|f| f.name.contains("thermal_part") && f.name.ends_with("_w_method")).collect(), fm) {
        hit |= persistent(p, &|p| {
            let fi = gen_i(f.name);
            let Some((mut want, err)) = loop_integral(fi, &seen(fm, p, 1e-5), fm) else { return Ok(false) };
            if fm == Fam::ZMat {
                want.im = 0.;
            }
            // rounding noise of the integrand must stay below the requested tolerance for the quadrature to stop
            let t = 1e-6 * want.norm() + 1e4 * err + 1e-13 / p.m.min(p.mq).min(1.).powi(4) + if fm == Fam::ZMat { 3e-7 } else { 0. };
            let it = if fm == Fam::ZMat { 22 } else { 11 };
            // peroxide's higher-order rules never meet tolerances this small next to the regulated singularities
            let k = if fm == Fam::ZMat { 0 } else { k };
            // the same point in other units: the reference is scaled, the library sees different numbers
            let d2 = u * u;
            let (want, t, p) = (want * d2, t * d2, &crate::generic::scale_pt(p, u));
            let m = match k {
                0 => Integral::G7K15(t, it),
                1 => Integral::G10K21(t, it),
                2 => Integral::G15K31(t, it),
                3 => Integral::G20K41(t, it),
                4 => Integral::G25K51(t, it),
                5 => Integral::G30K61(t, it),
                6 => Integral::G7K15R(1e-6, 8),
                _ => Integral::G30K61R(1e-6, 6),
            };
            let Some(got) = eval_m(f, p, m, nocfg()) else { return Ok(false) };
            // in other units the regulated singularity is narrower in the variable which is integrated over
            let tol = if fm == Fam::ZMat && u != 1. { 3e-2 * want.norm() + 2e-3 * d2 } else { 1e-3 * want.norm() } + 30. * t;
            let d = (got - want).norm();
            if d.is_nan() || d > tol {
                return Err(format!("{} with {m:?} = {got:e} but the loop integral of its integrand is {want:e} (|diff| {d:e} > {tol:e})", f.name));
            }
            Ok(tol < 0.1 * want.norm())
        })?;
    }
    Ok(if hit { Hit("resolved") } else { Triv("all below the tolerance") })
}
/// Functions without explicit method use the defaults in force, the explicit method is honoured, and the zero-Matsubara
/// functions use the regulator in force.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Set {
    p: Pt,
    tol: f64,
    it: u32,
    reg: f64,
    order: u32,
}
fn c14_settings(s: &Set, hasty: bool) -> Res {
    let _r = Reset;
    if hasty {
        consts::set_default_tol_integral(1e-2);
        consts::set_default_max_iter_integral(3);
    }
    let p = &s.p;
    let close = |a: C, b: C| (a - b).norm() <= 1e-12 * (a.norm() + b.norm()) + 1e-290;
    let mut hit = false;
    consts::set_matsubara_reg(s.reg);
    let fs = plain();
    // explicit method while other defaults are in force
    let meth: Vec<_> = fs
        .iter()
        .map(|f| (eval_m(fun(&format!("{}_w_method", f.name)), p, Integral::G7K15(s.tol, s.it), nocfg()), eval(f, p, nocfg())))
        .collect();
    let set = |k: u32| match k {
        0 => consts::set_default_tol_integral(s.tol),
        1 => consts::set_default_max_iter_integral(s.it),
        _ => consts::set_matsubara_reg(s.reg),
    };
    for k in [[0, 1, 2], [2, 1, 0], [1, 0, 2], [1, 2, 0]][s.order as usize % 4] {
        set(k);
    }
    for (f, (m, d)) in fs.iter().zip(&meth) {
        let (Some(m), Some(d), Some(v)) = (m, d, eval(f, p, nocfg())) else { continue };
        if !m.re.is_finite() || !v.re.is_finite() {
            continue;
        }
        if !close(v, *m) {
            return Err(format!(
                "{} = {v:e} with default tolerance {:e} and iterations {} but {m:e} when the same method is passed explicitly ({d:e} before)",
                f.name, s.tol, s.it
            ));
        }
        hit |= !close(v, *d);
    }
    Ok(if hit { Hit("settings mattered") } else { Triv("settings did not matter") })
}
fn c14_reg(p: &Pt, reg: f64) -> Res {
    let _r = Reset;
    consts::set_matsubara_reg(reg);
    let mut hit = false;
    for f in of_fam(plain(), Fam::ZMat) {
        let g = fun(&f.name.replace("zero_matsubara::", ""));
        hit |= persistent(p, &|p| {
            let q = seen(Fam::ZMat, p, reg);
            let (Some(v), Some(w)) = (eval(f, p, nocfg()), eval(g, &q, nocfg())) else { return Ok(false) };
            let w0 = eval(g, &seen(Fam::ZMat, p, 1e-5), nocfg()).unwrap();
            let tol = 1e-6 + 1e-6 * w.norm();
            let d = (v.re - w.re).abs();
            if d.is_nan() || d > tol {
                return Err(format!("{} = {v:e} with regulator {reg:e}, but at that frequency the general function is {w:e}", f.name));
            }
            Ok((w0.re - w.re).abs() > 3. * tol)
        })?;
    }
    Ok(if hit { Hit("regulator mattered") } else { Triv("regulator did not matter") })
}
/// Kinematics without narrow structures, which the quadrature can miss in unnatural units
fn pt_units() -> BS<Pt> {
    pt_wide()
        .prop_map(|mut p| {
            let k = (0.4 / p.om().norm()).max(1.);
            p.om = (p.om.0 * k, p.om.1 * k);
            p
        })
        .boxed()
}
fn c14() -> Subs {
    let mut v: Subs = vec![];
    for (nm, fm) in [("gen", Fam::Gen), ("zmat", Fam::ZMat), ("zmom", Fam::ZMom)] {
        v.push(Box::new(sub(&format!("c14-integral-{nm}"), (1500, 60000), pt, move |p| c14_integral(fm, p)).shrink(60)));
        v.push(Box::new(sub(&format!("c14-methods-{nm}"), (300, 20000), move || (if fm == Fam::ZMat { pt() } else { pt_wide() }, 0..8usize), move |(p, k)| c14_methods(fm, p, *k, 1.)).shrink(60)));
        if fm == Fam::ZMat {
            let soft = || (pt(), logu(0.01, 1.)).prop_map(|(p, k)| Pt { p: p.p * k, ..p });
            v.push(Box::new(sub("c14-soft-zmat", (400, 12000), soft, move |p| c14_methods(fm, p, 0, 1.)).shrink(60)));
            // the regulator is a frequency
            let units = |(p, u): &(Pt, f64)| {
                let _r = Reset;
                consts::set_matsubara_reg(1e-5 * u);
                c14_methods(Fam::ZMat, p, 0, *u)
            };
            v.push(Box::new(sub("c14-units-zmat", (160, 6000), || prop_oneof![(pt(), logu(2e-2, 60.)), (pt().prop_map(|p| Pt { beta: 0.05 * p.beta, ..p }), logu(0.2, 20.))], units).exclusive().shrink(60)));
        } else {
            let cold = || (pt_units(), prop_oneof![1 => logu(20., 60.), 1 => logu(0.02, 0.2)]).prop_map(|(p, beta)| Pt { beta, ..p });
            v.push(Box::new(sub(&format!("c14-temperatures-{nm}"), (150, 6000), move || (cold(), 0..6usize), move |(p, k)| c14_methods(fm, p, *k, 1.)).shrink(60)));
            v.push(Box::new(sub(&format!("c14-units-{nm}"), (300, 20000), || (pt_units(), 0..6usize, logu(1e-2, 1e2)), move |(p, k, u)| c14_methods(fm, p, *k, *u)).shrink(60)));
        }
    }
    v.push(Box::new(
        sub(
            "c14-settings",
            (400, 8000),
            || {
                (pt(), prop_oneof![5 => logu(1e-9, 1e2), 1 => Just(1e-10)], prop_oneof![6 => 0..6u32, 2 => 6..14u32, 1 => prop::sample::select(vec![49u32, 51, 55, 60])], logu(1e-4, 0.3), 0..4u32)
                    .prop_map(|(p, tol, it, reg, order)| Set { p, tol, it, reg, order })
            },
            |s| c14_settings(s, false),
        )
        .exclusive()
        .shrink(60),
    ));
    v.push(Box::new(
        sub(
            "c14-settings-units",
            (1500, 60000),
            || {
                (pt_wide(), logu(1e-3, 1e3), logu(1e-6, 1e2), 0..6u32, logu(1e-4, 0.3), 0..4u32, prop_oneof![4 => Just(1.), 1 => logu(1e-3, 1.), 1 => logu(1., 1e3)], prop_oneof![4 => Just(1.), 1 => logu(1e-3, 1.)]).prop_map(
                    |(mut p, u, tol, it, reg, order, kt, km)| {
                        p.beta *= kt;
                        p.m *= km;
                        p.mq *= km;
                        Set { p: crate::generic::scale_pt(&p, u), tol, it, reg, order }
                    },
                )
            },
            |s| c14_settings(s, true),
        )
        .exclusive()
        .shrink(60),
    ));
    v.push(Box::new(sub("c14-regulator", (150, 3000), || (pt(), logu(1e-3, 0.5)), |(p, r)| c14_reg(p, *r)).exclusive().shrink(60)));
    v
}


// ---------------------------------------------------------------- C09: integrated limits
/// Close to the limits rounding noise exceeds the library's default tolerance: ask for less accuracy.
fn coarse() {
    consts::set_default_tol_integral(1e-7);
    consts::set_default_max_iter_integral(24);
}
/// Thermal functions (self-energies, dressings, propagators) without an explicit method.
pub fn thermal_funs() -> Vec<&'static Fun> {
    FUNS.iter()
        .filter(|f| {
            (f.name.contains("thermal_part") || f.name.starts_with("ym::thermal::g") || f.name.starts_with("ym::thermal::zero")
                || f.name.starts_with("qcd::thermal::g") || f.name.starts_with("qcd::thermal::zero"))
                && !f.name.ends_with("_i")
                && !f.name.ends_with("_w_method")
        })
        .collect()
}
/// Rounding/quadrature noise of a function value: absolute 1e-8 on self-energies, propagated to dressings.
pub fn noise(f: &Fun, p: &Pt, v: C, pi: f64) -> f64 {
    let s = {
        let o = if fam(f.name) == Fam::ZMat { C::new(0., 0.) } else { p.om() };
        let pp = if fam(f.name) == Fam::ZMom { 0. } else { p.p };
        (o * o + pp * pp).norm()
    };
    let b = base(f.name);
    let inv = PRE * pi * 6. / s;
    if f.name.contains("thermal_part") {
        pi
    } else if b.contains("_inv") {
        inv
    } else if b.starts_with("dressing") {
        inv * v.norm_sqr()
    } else {
        inv * v.norm_sqr() * s
    }
}
/// total number of quarks in a configuration enters the noise
fn c09_integrated(lim: Fam, p: &Pt, cf: &Cfg) -> Res {
    let cfg = cf.build();
    let mut hit = false;
    for f in thermal_funs().into_iter().filter(|f| fam(f.name) == lim) {
        let g = fun(&f.name.replace(if lim == Fam::ZMat { "zero_matsubara::" } else { "zero_momentum::" }, ""));
        hit |= persistent(p, &|p| {
            let sc = p.om().norm().min(p.p).min(p.m).min(p.mq).min(1. / p.beta);
            let h = if lim == Fam::ZMat { 0.02 } else { 0.1 } * sc;
            let m = if f.name.contains("config") { cf.m } else { p.m };
            let rn = 5e-14 * (1. + p.om().norm() / m).powi(4) * (p.om().norm() / h * 4.).powi(2) * if lim == Fam::ZMat { 0. } else { 1. };
            let at = |h: f64| {
                let q = if lim == Fam::ZMat { Pt { om: (h, 0.), ..p.clone() } } else { Pt { p: h, ..p.clone() } };
                eval(g, &q, &cfg)
            };
            let (Some(v0), Some(mut v1), Some(mut v2), Some(mut v3)) = (eval(f, p, &cfg), at(h), at(h / 2.), at(h / 4.)) else { return Ok(false) };
            if lim == Fam::ZMat {
                for v in [&mut v1, &mut v2, &mut v3] {
                    v.im = 0.;
                }
            }
            let mut n = noise(f, p, v0, 3e-6 + rn);
            // Landau damping makes 1/dressing linear in |omega| with a steep slope: take the limit there
            let mut v0 = v0;
            if lim == Fam::ZMat && !f.name.contains("thermal_part") && !base(f.name).contains("_inv") {
                n /= v0.norm_sqr();
                for v in [&mut v0, &mut v1, &mut v2, &mut v3] {
                    *v = 1. / *v;
                }
            }
            let tol = 2.5 * (v2 - v3).norm().max((v1 - v2).norm() / 2.) + n + 1e-6 * v0.norm();
            let d = (v3 - v0).norm();
            if d.is_nan() || d > tol {
                return Err(format!("{} = {v0:e} is not the limit of {}: {v1:e}, {v2:e}, {v3:e} at {h:e} and its halves (tolerance {tol:e})", f.name, g.name));
            }
            Ok(tol < 3e-2 * v0.norm())
        })?;
    }
    Ok(if hit { Hit("resolved") } else { Triv("limit not resolved") })
}
fn c09() -> Subs {
    let mut v = crate::integrands::c09_subs();
    v.push(Box::new(sub("c09-integrated-zmat", (60, 4000), || (pt(), cfg()), |(p, c)| c09_integrated(Fam::ZMat, p, c)).shrink(40)));
    v.push(Box::new(sub("c09-integrated-zmom", (60, 4000), || (pt(), cfg()), |(p, c)| c09_integrated(Fam::ZMom, p, c)).shrink(40)));
    v
}

// ---------------------------------------------------------------- C12
fn transverse(name: &str) -> Option<String> {
    let b = base(name);
    let t = ["_l_"].iter().find_map(|k| b.contains(k).then(|| b.replacen(k, "_t_", 1)))?;
    Some(format!("{}{}", &name[..name.len() - b.len()], t))
}
fn c12_zmom(p: &Pt, cf: &Cfg) -> Res {
    let cfg = cf.build();
    let mut hit = false;
    for f in thermal_funs().into_iter().filter(|f| fam(f.name) == Fam::ZMom) {
        let Some(t) = transverse(f.name) else { continue };
        let t = fun(&t);
        hit |= persistent(p, &|p| {
            let (Some(l), Some(t)) = (eval(f, p, &cfg), eval(t, p, &cfg)) else { return Ok(false) };
            let tol = noise(f, p, l, 3e-7) + 1e-6 * l.norm();
            let d = (l - t).norm();
            if d.is_nan() || d > tol {
                return Err(format!("{} = {l:e} but the transverse one is {t:e} (|diff| {d:e} > {tol:e})", f.name));
            }
            Ok(tol < 1e-3 * l.norm())
        })?;
    }
    Ok(if hit { Hit("resolved") } else { Triv("not resolved") })
}
fn c12_limit(p: &Pt, cf: &Cfg) -> Res {
    let cfg = cf.build();
    let mut hit = false;
    for f in thermal_funs().into_iter().filter(|f| fam(f.name) == Fam::Gen) {
        let Some(t) = transverse(f.name) else { continue };
        let t = fun(&t);
        hit |= persistent(p, &|p| {
            let sc = p.om().norm().min(p.p).min(p.m).min(p.mq).min(1. / p.beta);
            let at = |h: f64| {
                let q = Pt { p: h, ..p.clone() };
                Some((eval(f, &q, &cfg)?, eval(t, &q, &cfg)?))
            };
            let h = 0.3 * sc;
            // rounding of the general functions grows with inverse powers of the momentum and of the mass
            let m = if f.name.contains("config") { cf.m } else { p.m };
            let rn = 5e-14 * (1. + p.om().norm() / m).powi(4) * (p.om().norm() / h * 4.).powi(2);
            let (Some((l1, t1)), Some((l2, t2))) = (at(h), at(h / 4.)) else { return Ok(false) };
            let (d1, d2) = ((l1 - t1).norm(), (l2 - t2).norm());
            let tol = 0.5 * d1 + noise(f, &Pt { p: 0., ..p.clone() }, l2, 3e-7 + rn) + 1e-6 * l2.norm();
            if d2.is_nan() || d2 > tol || d2 > 0.2 * l2.norm() + tol {
                return Err(format!("{} - transverse does not vanish with the momentum: |diff| {d1:e} at {h:e}, {d2:e} at {:e} (value {l2:e})", f.name, h / 4.));
            }
            Ok(tol < 1e-2 * l2.norm())
        })?;
    }
    Ok(if hit { Hit("resolved") } else { Triv("not resolved") })
}
fn c12() -> Subs {
    vec![
        Box::new(sub("c12-zero-momentum", (600, 20000), || (pt(), cfg()), |(p, c)| c12_zmom(p, c)).shrink(60)),
        Box::new(sub("c12-limit", (100, 5000), || (pt(), cfg()), |(p, c)| c12_limit(p, c)).shrink(40)),
    ]
}

// ---------------------------------------------------------------- C15
/// Self-energies making up the thermal part of the inverse dressing named `f`.
fn comp_case(p: &Pt, cf: &Cfg, nc: f64, nf: f64, accuracy: f64, own: f64) -> Result<bool, String> {
    let cfg = cf.build();
    let mut hit = false;
    for f in thermal_funs().into_iter().filter(|f| base(f.name).contains("_inv")) {
        let fm = fam(f.name);
        let (seg, b) = (["", "zero_matsubara::", "zero_momentum::"][fm as usize], base(f.name));
        let om = if fm == Fam::ZMat { C::new(0., 0.) } else { p.om() };
        let pp = if fm == Fam::ZMom { 0. } else { p.p };
        let sdim = om * om + pp * pp;
        let with_cfg = b.contains("field_config");
        // integrals with a configuration's own number of colors are not digit by digit the ones compared with
        let accuracy = if with_cfg { own } else { accuracy };
        let m = if with_cfg { cf.m } else { p.m };
        let s = ex(sdim) / (er(m).sq());
        let lt = if b.contains("_l_") { "l" } else { "t" };
        let low = |n: String, q: &Pt| eval(fun(&format!("low_level::oneloop::thermal::{n}")), q, nocfg());
        let mut th = C::new(0., 0.);
        let mut scale = 0.;
        let mut vac;
        if f.name.contains("::ghost::") {
            vac = refs::g(s);
            let Some(v) = low(format!("ghost::{seg}self_energy_thermal_part_landau"), p) else { continue };
            th = -v;
            scale += v.norm();
        } else {
            vac = refs::f(s);
            if !zt(b) {
                let Some(v) = low(format!("gluon::{seg}polarization_glue_{lt}_thermal_part_landau"), &Pt { m, ..p.clone() }) else { continue };
                th += v;
                scale += v.norm();
            }
            let list: Vec<(f64, f64)> = if with_cfg {
                cf.quarks.iter().map(|&(n, q)| (n as f64, q)).collect()
            } else if f.name.starts_with("qcd") {
                vec![(nf, p.mq)]
            } else {
                vec![]
            };
            let ncf = if with_cfg { cf.nc as f64 } else { nc };
            for (n, mq) in list {
                vac = vac + refs::f_q(s * (er(m) / er(mq)).sq()) * er(n / ncf);
                let z = if zt(b) { "zero_temp_" } else { "" };
                // low-level functions use the global number of colors
                let Some(v) = low(format!("gluon::{seg}polarization_quark_{lt}_thermal_part_{z}landau"), &Pt { mq, m, ..p.clone() }) else { continue };
                let v = v * (n * nc / ncf);
                th += v;
                scale += v.norm();
            }
        }
        let inv = vac + er(p.f0) + ex(-PRE * th / sdim);
        let tol = 40. * inv.e + (accuracy + 1e-8 * scale) * PRE / sdim.norm() + 1e-10 * inv.v.norm();
        let tol = if fm == Fam::ZMat { tol * 30. } else { tol };
        let Some(got) = eval(f, p, &cfg) else { continue };
        let d = (got - inv.v).norm();
        if d.is_nan() || d > tol {
            if fm == Fam::ZMat && d < 1e-3 * inv.v.norm() + 1e-5 * PRE / sdim.norm() {
                // accidental quadrature error next to the regulated singularity (see `persistent`)
                continue;
            }
            return Err(format!("{} = {got:e}, but vacuum part {:e} and thermal part {:e} combine to {:e} (|diff| {d:e} > {tol:e})", f.name, vac.v, -PRE * th / sdim, inv.v));
        }
        hit |= tol < 1e-3 * (PRE * th / sdim).norm();
        // dressing and propagator
        let dn = f.name.replace("_inv", "");
        let pn = dn.replace("dressing", "propagator");
        let (Some(dr), Some(pr)) = (eval(fun(&dn), p, &cfg), eval(fun(&pn), p, &cfg)) else { continue };
        let rel = 1e-9 + 2. * tol / inv.v.norm();
        if (dr * got - 1.).norm() > rel || !(dr * got).re.is_finite() {
            return Err(format!("{dn} = {dr:e} is not the inverse of {} = {got:e}", f.name));
        }
        if (pr * got * sdim - 1.).norm() > rel || !(pr * got).re.is_finite() {
            return Err(format!("{pn} = {pr:e} is not the dressing {dr:e} over the squared momentum {sdim:e}"));
        }
    }
    Ok(hit)
}
fn c15() -> Subs {
    let res = |h: bool| if h { Hit("thermal part resolved") } else { Triv("not resolved") };
    vec![
        Box::new(sub("c15-defaults", (600, 20000), || (pt(), cfg()), move |(p, c)| Ok(res(comp_case(p, c, 3., 1., 2e-8, 2e-8)?))).shrink(60)),
        Box::new(
            sub("c15-globals", (150, 4000), || (pt(), cfg(), 1..8u32, 0..7u32, any::<bool>()), move |(p, c, nc, nf, o)| {
                let _r = Reset;
                if *o {
                    consts::set_number_of_colors(*nc);
                }
                consts::set_number_of_fermions(*nf);
                consts::set_number_of_colors(*nc);
                Ok(res(comp_case(p, c, *nc as f64, *nf as f64, 2e-8, 2e-8)?))
            })
            .exclusive()
            .shrink(60),
        ),
        // arguments several orders of magnitude apart
        Box::new(
            sub("c15-hierarchies", (60, 4000), || (pt_wide(), cfg(), prop::collection::vec(prop_oneof![2 => Just(1.), 1 => logu(3e-3, 3e2)], 7)), move |(p, c, k)| {
                let _r = Reset;
                let p = Pt { om: (p.om.0 * k[0], p.om.1 * k[0]), p: p.p * k[1], m: p.m * k[2], mq: p.mq * k[3], mu: p.mu * k[4], f0: p.f0 * k[5], ..p.clone() };
                let c = Cfg { m: c.m * k[6], ..c.clone() };
                // the size of the thermal and dense parts
                let t2 = 1. / (p.beta * p.beta) + p.mu * p.mu;
                consts::set_default_tol_integral(1e-9 * t2);
                consts::set_default_max_iter_integral(12);
                Ok(res(comp_case(&p, &c, 3., 1., 3e-8 * t2, 3e-6 * t2)?))
            })
            .exclusive()
            .shrink(60),
        ),
        // many flavours of quarks which are hardly excited any more: small contributions count, too
        Box::new(
            sub("c15-heavy", (150, 4000), || (pt(), cfg(), uni(4., 19.), 1..2000u32, prop::bool::ANY), move |(p, c, x, n, dense)| {
                let _r = Reset;
                let mu = if *dense { p.mu } else { 0. };
                let mq = mu.abs() + x / p.beta;
                let p = Pt { mq, mu, ..p.clone() };
                let c = Cfg { quarks: vec![(*n, mq)], ..c.clone() };
                consts::set_number_of_colors(c.nc);
                consts::set_number_of_fermions(*n);
                let n = f64::from(*n);
                Ok(res(comp_case(&p, &c, f64::from(c.nc), n, 3e-9 * (1. + n), 3e-9 * (1. + n))?))
            })
            .exclusive()
            .shrink(60),
        ),
        // far from order one: temperatures well below and above the masses, tolerances in proportion
        Box::new(
            sub("c15-temperatures", (60, 3000), || (pt_wide(), cfg(), prop_oneof![2 => logu(20., 1e3), 1 => logu(5e-3, 0.2)]), move |(p, c, beta)| {
                let _r = Reset;
                let t2 = 1. / (beta * beta);
                consts::set_default_tol_integral(1e-9 * t2);
                consts::set_default_max_iter_integral(12);
                let p = Pt { beta: *beta, ..p.clone() };
                Ok(res(comp_case(&p, c, 3., 1., 3e-8 * t2, 3e-6 * t2)?))
            })
            .exclusive()
            .shrink(60),
        ),
    ]
}

// ---------------------------------------------------------------- C16
/// Functions whose zero-temperature limit is known: (thermal name, limit evaluated at the point).
fn cold(p: &Pt, cf: &Cfg, heavy: bool) -> Result<bool, String> {
    let cfg = cf.build();
    let mut hit = false;
    for f in thermal_funs().into_iter().filter(|f| !f.name.contains("thermal_part") && !zt(f.name)) {
        let fm = fam(f.name);
        let b = base(f.name);
        let with_cfg = b.contains("field_config");
        let qcd = f.name.starts_with("qcd") && f.name.contains("gluon");
        let z = fun_zero_temp(f.name);
        hit |= persistent(p, &|p| {
            let lim = if qcd && !heavy {
                let Some(v) = z.and_then(|z| eval(z, p, &cfg)) else { return Ok(false) };
                v
            } else {
                // vacuum functions of the squared momentum in gluon-mass units
                let om = if fm == Fam::ZMat { C::new(0., 0.) } else { p.om() };
                let pp = if fm == Fam::ZMom { 0. } else { p.p };
                let m = if with_cfg { cf.m } else { p.m };
                let s = (om * om + pp * pp) / (m * m);
                let n = b.replace("dressing_l_", "dressing_").replace("dressing_t_", "dressing_").replace("propagator_l_", "propagator_").replace("propagator_t_", "propagator_");
                let t = if qcd { "qcd" } else { "ym" };
                let g = if f.name.contains("ghost") { "ghost" } else { "gluon" };
                let vf = fun(&format!("{t}::{g}::{n}"));
                let a: Vec<C> = vf
                    .args
                    .iter()
                    .map(|&x| match x {
                        "s" => s,
                        "mq" => C::new(p.mq / m, 0.),
                        o => p.get(o),
                    })
                    .collect();
                let Some(v) = eval_a(vf, &a, G7, &cfg) else { return Ok(false) };
                if b.starts_with("propagator") { v / (m * m) } else { v }
            };
            let at = |k: f64| eval(f, &Pt { beta: p.beta * k, ..p.clone() }, &cfg);
            let (Some(a), Some(b1)) = (at(1.), at(4.)) else { return Ok(false) };
            let (da, db) = ((a - lim).norm(), (b1 - lim).norm());
            let tol = 0.25 * da + noise(f, p, lim, 1e-7) + 1e-7 * lim.norm();
            if db.is_nan() || db > tol || db > 0.05 * lim.norm() + tol {
                return Err(format!("{} does not approach its zero-temperature limit {lim:e}: |diff| {da:e} at beta {:e}, {db:e} at {:e}", f.name, p.beta, 4. * p.beta));
            }
            Ok(tol < 3e-2 * lim.norm())
        })?;
    }
    Ok(hit)
}
fn fun_zero_temp(name: &str) -> Option<&'static Fun> {
    let b = base(name);
    let z = format!("{}{}", &name[..name.len() - b.len()], b.replacen("_landau", "_zero_temp_landau", 1));
    has(&z).then(|| fun(&z))
}
/// Kinematics for the zero-temperature limit: everything of order one, temperatures well below every scale.
fn cold_pt(below: bool) -> BS<(Pt, Cfg)> {
    let r = || logu(0.6, 1.6);
    (r(), sign(), r(), r(), r(), (uni(40., 80.), uni(-3., 3.), uni(0.2, 0.6), sign(), uni(1.5, 2.5)), (1..6u32, prop::collection::vec((1..4u32, r()), 0..4)))
        .prop_map(move |(om, so, p, m, mq, (beta, f0, lo, sg, hi), (nc, quarks))| {
            let mq = if below { mq.max(0.8) } else { mq };
            let mu = if below { lo * 0.6 } else { hi } * sg;
            (
                Pt { om: (om * so, 0.), p, m, m2: 1., mq, q: 1., beta, mu, f0, xi: 0. },
                Cfg { nc, m, quarks: quarks.into_iter().map(|(n, q)| (n, q.max(0.8))).collect() },
            )
        })
        .boxed()
}
fn c16_noquarks(p: &Pt, cf: &Cfg) -> Res {
    let _r = Reset;
    consts::set_number_of_fermions(0);
    let empty = Cfg { nc: cf.nc, m: p.m, quarks: vec![] };
    let zeros = Cfg { nc: cf.nc, m: p.m, quarks: cf.quarks.iter().map(|&(_, m)| (0, m)).collect() };
    let mut hit = false;
    for f in FUNS.iter().filter(|f| f.name.starts_with("qcd") && f.name.contains("gluon") && !f.name.ends_with("_i")) {
        let b = base(f.name).replace("_w_field_config", "").replace("_crossed", "");
        let mods = &f.name[..f.name.len() - base(f.name).len()];
        let ymn = mods.replacen("qcd", "ym", 1);
        let y = if zt(&b) {
            // no quarks, no temperature: the vacuum function
            if fam(f.name) != Fam::Gen {
                continue;
            }
            None
        } else {
            Some(fun(&format!("{ymn}{b}")))
        };
        for c in [&empty, &zeros] {
            let cfg = c.build();
            let Some(v) = eval(f, p, &cfg) else { continue };
            let w = match y {
                Some(y) => eval(y, p, &cfg),
                None => {
                    let n = b.replace("_zero_temp", "").replace("dressing_l_", "dressing_").replace("dressing_t_", "dressing_").replace("propagator_l_", "propagator_").replace("propagator_t_", "propagator_");
                    eval(fun(&format!("ym::gluon::{n}")), p, &cfg).map(|v| if b.starts_with("propagator") { v / (p.m * p.m) } else { v })
                }
            };
            let Some(w) = w else { continue };
            let tol = 1e-9 * (v.norm() + w.norm()) + if f.name.contains("thermal") && y.is_some() { noise(f, p, w, 1e-9) } else { 0. };
            let d = (v - w).norm();
            if d.is_nan() || d > tol {
                return Err(format!("{} = {v:e} without quarks, but the Yang-Mills function gives {w:e}", f.name));
            }
            hit = true;
        }
    }
    Ok(if hit { Hit("no quarks") } else { Triv("nothing compared") })
}
fn c16_heavy(p: &Pt, cf: &Cfg, k: f64) -> Res {
    // quarks much heavier than temperature and chemical potential: only the vacuum loop remains
    let mq = k * (p.mu.abs() + 40. / p.beta);
    let p = Pt { mq, ..p.clone() };
    let cf = Cfg { m: p.m, quarks: cf.quarks.iter().map(|&(n, x)| (n, mq * (1. + x))).collect(), ..cf.clone() };
    let cfg = cf.build();
    let mut hit = false;
    for f in thermal_funs().into_iter().filter(|f| f.name.starts_with("qcd") && f.name.contains("gluon") && base(f.name).contains("_inv")) {
        let b = base(f.name);
        let fm = fam(f.name);
        let om = if fm == Fam::ZMat { C::new(0., 0.) } else { p.om() };
        let pp = if fm == Fam::ZMom { 0. } else { p.p };
        let s = ex((om * om + pp * pp) / (p.m * p.m));
        let list: Vec<(f64, f64, f64)> = if b.contains("field_config") { cf.quarks.iter().map(|&(n, q)| (n as f64, q, cf.nc as f64)).collect() } else { vec![(1., mq, 3.)] };
        let mut want = er(0.);
        for (n, q, nc) in list {
            want = want + refs::f_q(s * (er(p.m) / er(q)).sq()) * er(n / nc);
        }
        let mods = f.name[..f.name.len() - b.len()].replacen("qcd", "ym", 1);
        let rest = if zt(b) {
            refs::f(s).v + p.f0
        } else {
            let Some(v) = eval(fun(&format!("{mods}{}", b.replace("_w_field_config", ""))), &p, &cfg) else { continue };
            v
        };
        let Some(v) = eval(f, &p, &cfg) else { continue };
        let w = want.v + rest;
        let tol = 40. * want.e + noise(f, &p, w, 3e-7) + 1e-9 * w.norm();
        let d = (v - w).norm();
        if d.is_nan() || d > tol {
            return Err(format!("{} = {v:e} with quarks of mass {mq:e}, but thermal Yang-Mills plus the vacuum quark loop is {w:e} (tolerance {tol:e})", f.name));
        }
        hit |= tol < 1e-2 * w.norm();
    }
    Ok(if hit { Hit("heavy quarks") } else { Triv("not resolved") })
}
fn c16() -> Subs {
    let res = |h: bool| if h { Hit("limit resolved") } else { Triv("not resolved") };
    vec![
        Box::new(sub("c16-cold-vacuum", (60, 4000), || cold_pt(true), move |(p, c)| Ok(res(cold(p, c, true)?))).shrink(40)),
        Box::new(sub("c16-cold-dense", (60, 4000), || cold_pt(false), move |(p, c)| Ok(res(cold(p, c, false)?))).shrink(40)),
        Box::new(sub("c16-heavy", (200, 8000), || (pt(), cfg(), uni(1., 3.)), move |(p, c, k)| c16_heavy(p, c, *k)).shrink(40)),
        Box::new(sub("c16-no-quarks", (150, 4000), || (pt(), cfg()), |(p, c)| c16_noquarks(p, c)).exclusive().shrink(40)),
    ]
}

// ---------------------------------------------------------------- C17
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hard {
    om: (f64, f64),
    p: f64,
    mq: f64,
    t: f64,
    mu: f64,
    eps: f64,
    nc: u32,
}
fn hard() -> BS<Hard> {
    let x = prop_oneof![2 => logu(0.1, 10.).prop_map(|a| (a, 0.)), 1 => (logu(0.2, 5.), sgnd(uni(0., 1.))).prop_map(|(r, a)| (r * a.cos(), r * a.sin()))];
    (x, logu(0.2, 1.), uni(0.01, 0.5), prop_oneof![logu(0.3, 2.)], prop_oneof![1 => Just(0.), 3 => sgnd(logu(0.3, 5.))], logu(3e-3, 3e-2), prop_oneof![3 => Just(3u32), 1 => 1..7u32])
        .prop_map(|(x, p, mq, t, mu, eps, nc)| {
            let h = eps * t.max(mu.abs());
            let p = p * h / x.0.hypot(x.1).max(1.);
            Hard { om: (x.0 * p, x.1 * p), p, mq: mq * h, t, mu, eps, nc }
        })
        .boxed()
}
fn htl(x: C, md2: f64) -> (C, C) {
    let i = C::new(0., 1.);
    let at = i / 2. * ((x - i) / (x + i)).ln();
    let l = (x * x + 1.) * (-x * at + 1.) * md2;
    let t = ((x * x + 1.) * x * at - x * x) * (md2 / 2.);
    (l, t)
}
fn c17_case(h: &Hard, zero_temp: bool) -> Res {
    let nc = h.nc as f64;
    let mu = if zero_temp && h.mu == 0. { 1. } else { h.mu };
    let t2 = if zero_temp { 0. } else { h.t * h.t };
    let md2 = (t2 / 6. + mu * mu / (2. * PI * PI)) / nc;
    let x = c(h.om) / h.p;
    let (l, t) = htl(x, md2);
    let p = Pt { om: h.om, p: h.p, m: 1., m2: 1., mq: h.mq, q: 1., beta: 1. / h.t, mu, f0: 0., xi: 0. };
    let z = if zero_temp { "zero_temp_" } else { "" };
    let mut hit = false;
    for (seg, k, want) in [("", "l", l), ("", "t", t), ("zero_momentum::", "l", C::new(md2 / 3., 0.)), ("zero_momentum::", "t", C::new(md2 / 3., 0.)), ("zero_matsubara::", "l", C::new(md2, 0.)), ("zero_matsubara::", "t", C::new(0., 0.))] {
        let f = fun(&format!("low_level::oneloop::thermal::gluon::{seg}polarization_quark_{k}_thermal_part_{z}landau"));
        let name = f.name;
        hit |= persistent(&p, &|p| {
            // follow the perturbed point
            let (xx, md) = (p.om() / p.p, ((if zero_temp { 0. } else { 1. / (p.beta * p.beta) }) / 6. + mu * mu / (2. * PI * PI)) / nc);
            let (l, t) = htl(xx, md);
            let want = if seg.is_empty() { if k == "l" { l } else { t } } else { want * (md / md2) };
            let Some(got) = eval_m(fun(&format!("{name}_w_method")), p, Integral::G7K15(1e-9, 14), nocfg()) else { return Ok(false) };
            let e = p.om().norm().max(p.p).max(p.mq) / (1. / p.beta * (if zero_temp { 0. } else { 1. })).max(mu.abs());
            let big = 1. + 1. / xx.norm_sqr().min(1.);
            let tol = md * (20. * e * e * big * (1. - e.ln())) + 3e-6;
            let tol = if seg == "zero_matsubara::" { tol + md * 0.02 + 20. * 1e-5 / p.p * md } else { tol };
            let d = (got + want).norm();
            if std::env::var("QSV_DBG").is_ok() {
                eprintln!("C17 {} {:.2e}", name, d / tol);
            }
            if d.is_nan() || d > tol {
                return Err(format!("{name} = {got:e}, hard-loop limit {:e} (|diff| {d:e} > {tol:e}, m_D^2 {md:e}, eps {e:e})", -want));
            }
            Ok(tol < 0.1 * md)
        })?;
    }
    Ok(if hit { Hit("hard loop resolved") } else { Triv("corrections too large") })
}
fn c17() -> Subs {
    vec![
        Box::new(
            sub("c17-thermal", (800, 20000), hard, |h| {
                let _r = Reset;
                consts::set_number_of_colors(h.nc);
                c17_case(h, false)
            })
            .exclusive()
            .shrink(60),
        ),
        Box::new(
            sub("c17-dense", (800, 20000), hard, |h| {
                let _r = Reset;
                consts::set_number_of_colors(h.nc);
                c17_case(h, true)
            })
            .exclusive()
            .shrink(60),
        ),
    ]
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C14",
        rule: "a case counts when at least one integrated function was compared with a tolerance below 1e-3 of its value, or when the compared settings were not the defaults",
        assumptions: &["scales within 0.1..5, temperatures 0.05..5 (absolute quadrature tolerance of the library)"],
        subs: c14, init: None,
    },
    Property { id: "C09", rule: "a case counts when at least one limit was resolved (tolerance below 3% of the value, 1% for integrands)", assumptions: &["limits are extrapolated from two (three) small values of the momentum or frequency"], subs: c09, init: Some(coarse) },
    Property { id: "C12", rule: "a case counts when at least one pair was compared with a tolerance below 1e-3 (1e-2 for the limit) of its value", assumptions: &["scales of order one"], subs: c12, init: Some(coarse) },
    Property { id: "C15", rule: "a case counts when the tolerance was below 1e-3 of the thermal part for at least one inverse dressing", assumptions: &["scales of order one; self-energies themselves are decided by C14"], subs: c15, init: None },
    Property { id: "C16", rule: "a case counts when at least one limit was resolved (tolerance below 3% of the limit)", assumptions: &["limits are decided at temperatures 40..320 times smaller than the other scales"], subs: c16, init: None },
    Property { id: "C17", rule: "a case counts when the tolerance was below a tenth of the Debye mass squared", assumptions: &["soft scales 30..300 times below the hard scale"], subs: c17, init: None },
    ]
}
