//! C02, C13, C24, C30: relations that every function of the library has to satisfy, driven by the registry.
use crate::ea::*;
use crate::fw::*;
use crate::gens::*;
use crate::integrated::{noise, persistent};
use crate::pts::*;
use crate::refs::Fam;
use crate::registry::{Ctx, Fun, FFI, FUNS};
use crate::vac::Reset;
use proptest::prelude::*;
use qcd_sme::consts;
use qcd_sme::qcd::FieldConfig;
use serde::{Deserialize, Serialize};

fn is_vac(f: &Fun) -> bool {
    f.args.contains(&"s") || f.args.contains(&"ln_s")
}
fn is_density(f: &Fun) -> bool {
    f.name.contains("charge_density") || f.name.contains("chemical_potential")
}
/// Performs a numerical integration.
fn is_integrated(f: &Fun) -> bool {
    !is_vac(f) && (f.args.contains(&"integral") || f.name.contains("thermal::") && !f.args.contains(&"q") && !f.args.contains(&"en"))
        && !(f.name == "common::thermal::fermi_momentum") && !f.name.contains("charge_density_zero_temp")
        && !f.name.contains("chemical_potential_zero_temp")
}
fn is_pointwise(f: &Fun) -> bool {
    !is_vac(f) && !is_integrated(f) && !is_density(f)
}
fn sel(k: fn(&Fun) -> bool) -> Vec<&'static Fun> {
    FUNS.iter().filter(|f| k(f)).collect()
}
pub fn call(f: &Fun, v: usize, a: &[C], cfg: &FieldConfig) -> C {
    (f.vars[v].f)(&Ctx { a, integral: G7, cfg })
}
/// Rounding noise of a function: largest change under random relative perturbations of 1e-13 and largest fourth
/// difference (which smooth functions do not have) along random directions with steps of 1e-7 and 1e-5.
pub fn scatter_at(f: &Fun, v: usize, a: &[C]) -> f64 {
    scatter(f, v, a, crate::integrands::dummy_cfg())
}
fn scatter(f: &Fun, v: usize, a: &[C], cfg: &FieldConfig) -> f64 {
    let v0 = call(f, v, a, cfg);
    let mut s: f64 = 0.;
    let mut h = 0x9e3779b97f4a7c15u64;
    let mut rnd = || {
        h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (h >> 33) as f64 / (1u64 << 31) as f64 - 0.5
    };
    let mut b = a.to_vec();
    for _ in 0..6 {
        for (x, y) in b.iter_mut().zip(a) {
            *x = y * (1. + 2e-13 * rnd());
        }
        s = s.max((call(f, v, &b, cfg) - v0).norm());
    }
    for st in [1e-7, 1e-7, 1e-5] {
        let dir: Vec<f64> = a.iter().map(|_| 2. * rnd()).collect();
        let mut at = |k: f64| {
            for (i, x) in b.iter_mut().enumerate() {
                *x = a[i] * (1. + st * k * dir[i]);
            }
            call(f, v, &b, cfg)
        };
        let d4 = at(-2.) + at(2.) + 6. * v0 - 4. * (at(-1.) + at(1.));
        s = s.max(d4.norm() / 4.);
    }
    s
}
fn ok(d: f64, tol: f64) -> bool {
    d <= tol
}
fn fin(z: C) -> bool {
    z.re.is_finite() && z.im.is_finite()
}
fn perturbed(a: &[C]) -> Vec<Vec<C>> {
    [1.00031, 0.99873, 1.00213].iter().map(|k| a.iter().enumerate().map(|(i, z)| z * (1. + (k - 1.) * (1. + 0.37 * i as f64))).collect()).collect()
}
/// A relation between two evaluations must fail at a point and at its neighbours to be reported: isolated
/// rounding accidents do not.
fn robust(a: &[C], ck: &dyn Fn(&[C]) -> Result<bool, String>) -> Result<bool, String> {
    match ck(a) {
        Ok(h) => Ok(h),
        Err(e) => {
            if perturbed(a).iter().any(|b| ck(b).is_ok()) {
                Ok(false)
            } else {
                Err(e)
            }
        }
    }
}

// ---------------------------------------------------------------- C02
fn forms(f: &Fun, a: &[C], cfg: &FieldConfig, abs: f64) -> Result<bool, String> {
    let v0 = call(f, 0, a, cfg);
    if !fin(v0) {
        return Ok(false);
    }
    let mut hit = false;
    for v in 1..f.vars.len() {
        // also with the sign of the (zero) imaginary part flipped
        for neg in [false, true] {
            let b: Vec<C> = a.iter().map(|z| C::new(z.re, if neg { -0. } else { 0. })).collect();
            let w = call(f, v, &b, cfg);
            let sc = if abs > 0. { 0. } else { scatter(f, 0, a, cfg) + scatter(f, v, &b, cfg) };
            let tol = 1e-12 * v0.norm() + 50. * sc + 2. * abs + 1e-140;
            if !ok((w - v0).norm(), tol) {
                return Err(format!("{} at {a:?}: {v0:e} with real arguments but {w:e} with complex ones (tolerance {tol:e})", f.name));
            }
            hit |= tol < 1e-3 * v0.norm();
        }
    }
    Ok(hit)
}
fn conjugate(f: &Fun, v: usize, a: &[C], cfg: &FieldConfig, minus: bool, abs: f64) -> Result<bool, String> {
    let m = f.vars[v].mask;
    let b: Vec<C> = a
        .iter()
        .enumerate()
        .map(|(i, z)| {
            if minus && f.args[i] == "om" {
                -z.conj()
            } else if m >> i & 1 == 0 {
                *z
            } else {
                z.conj()
            }
        })
        .collect();
    let (x, y) = (call(f, v, a, cfg), call(f, v, &b, cfg));
    if !fin(x) {
        return Ok(false);
    }
    let sc = if abs > 0. { 0. } else { scatter(f, v, a, cfg) + scatter(f, v, &b, cfg) };
    let tol = 1e-12 * x.norm() + 50. * sc + 2. * abs + 1e-140;
    if !ok((y - x.conj()).norm(), tol) {
        return Err(format!(
            "{} at {a:?} = {x:e}, but {y:e} at the conjugate {} is not its conjugate (tolerance {tol:e})",
            f.name,
            if minus { "(with the frequency reflected)" } else { "" }
        ));
    }
    Ok(tol < 1e-3 * x.norm())
}
/// Argument values; those a function variant takes as complex numbers may be complex.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    k: usize,
    v: usize,
    z: Vec<(f64, f64)>,
}
fn raw(n: usize) -> BS<Raw> {
    (0..n, 0..16usize, prop::collection::vec((pos(), cplane(pos())), 8)).prop_map(|(k, v, w)| Raw {
        k,
        v,
        // half planes: masses, momenta off the cuts
        z: w.into_iter().map(|(r, z)| if z.0 <= 0. { (r, 0.) } else { z }).collect(),
    })
    .boxed()
}
/// Vacuum arguments: z = momentum squared anywhere off the cut
fn raw_vac(n: usize) -> BS<Raw> {
    (0..n, 0..4usize, prop::collection::vec(cplane(pos()), 8)).prop_map(|(k, v, z)| Raw { k, v, z }).boxed()
}
/// Vacuum arguments next to the cut, on both sides
fn raw_cut(n: usize) -> BS<Raw> {
    let z = || (pos(), sgnd(logu(1e-16, 1e-5))).prop_map(|(r, t)| (-r, r * t));
    (0..n, 0..4usize, prop::collection::vec(z(), 8)).prop_map(|(k, v, z)| Raw { k, v, z }).boxed()
}
impl Raw {
    fn args(&self, f: &Fun, mask: u32) -> Vec<C> {
        (0..f.args.len())
            .map(|i| {
                let z = c(self.z[i % self.z.len()]);
                match f.args[i] {
                    "integral" | "config" => C::new(0., 0.),
                    _ if mask >> i & 1 == 1 => z,
                    "mu" | "f0" | "g0" | "xi" => C::new(z.re + z.im, 0.),
                    _ => C::new(z.norm(), 0.),
                }
            })
            .collect()
    }
}
fn c02_raw(fs: &[&'static Fun], r: &Raw) -> Res {
    let f = fs[r.k % fs.len()];
    let cfg = Cfg { nc: 3, m: 0.7, quarks: vec![(2, 0.4), (1, 0.6)] }.build();
    let mut hit = false;
    let a = r.args(f, 0);
    hit |= robust(&a, &|a| forms(f, a, &cfg, 0.))?;
    let v = r.v % f.vars.len();
    let a = r.args(f, f.vars[v].mask);
    // real arguments with complex output: the result must be its own conjugate
    let minus = f.args.contains(&"om");
    hit |= robust(&a, &|a| conjugate(f, v, a, &cfg, minus, 0.))?;
    if !minus || !f.name.contains("tlog") {
        hit |= robust(&a, &|a| conjugate(f, v, a, &cfg, false, 0.))?;
    }
    Ok(if hit { Hit(if v == 0 { "real" } else { "complex" }) } else { Triv("rounding dominated") })
}
/// Exactly on the cut a complex function takes the value of the side which the sign of the vanishing imaginary part indicates.
fn c02_edge(fs: &[&'static Fun], r: &Raw) -> Res {
    let f = fs[r.k % fs.len()];
    if f.vars.len() < 2 {
        return Ok(Triv("real only"));
    }
    let cfg = Cfg { nc: 3, m: 0.7, quarks: vec![(2, 0.4), (1, 0.6)] }.build();
    let v = 1 + r.v % (f.vars.len() - 1);
    let a = r.args(f, f.vars[v].mask);
    let at = |t: f64| {
        let b: Vec<C> = a.iter().enumerate().map(|(i, z)| if f.vars[v].mask >> i & 1 == 1 { C::new(z.re, z.im.signum() * t * z.re.abs()) } else { *z }).collect();
        (call(f, v, &b, &cfg), scatter(f, v, &b, &cfg))
    };
    let (x, sx) = at(0.);
    if !fin(x) {
        return Ok(Triv("not finite"));
    }
    let mut best = (f64::INFINITY, C::new(f64::NAN, 0.), 0.);
    for t in [1e-15, 1e-13, 1e-11, 1e-9, 1e-7] {
        let (y, sy) = at(t);
        let tol = 1e-12 * x.norm() + 50. * (sx + sy) + 1e-140;
        let d = (y - x).norm() / tol;
        if !(d > best.0) {
            best = (d, y, tol);
        }
    }
    if !(best.0 <= 1.) {
        return Err(format!("{} at {a:?}, on the cut, is {x:e}, but {:e} next to it (tolerance {:e})", f.name, best.1, best.2));
    }
    Ok(if best.2 < 1e-3 * x.norm() { Hit("on the cut") } else { Triv("rounding dominated") })
}
/// Off the cuts complex functions are analytic: however small the imaginary part of an argument, the result changes in
/// proportion to it.
fn c02_near(fs: &[&'static Fun], r: &Raw) -> Res {
    let f = fs[r.k % fs.len()];
    if f.vars.len() < 2 {
        return Ok(Triv("real only"));
    }
    let cfg = Cfg { nc: 3, m: 0.7, quarks: vec![(2, 0.4), (1, 0.6)] }.build();
    let v = 1 + r.v % (f.vars.len() - 1);
    let m = f.vars[v].mask;
    let is: Vec<usize> = (0..f.args.len()).filter(|i| m >> i & 1 == 1).collect();
    let i = is[(r.v / 4 + r.k / fs.len()) % is.len()];
    let a: Vec<C> = r.args(f, m).into_iter().enumerate().map(|(j, z)| if m >> j & 1 == 1 { C::new(z.norm(), 0.) } else { z }).collect();
    let ck = |a: &[C]| {
        let x = a[i].re.abs();
        let at = |t: f64| {
            let mut b = a.to_vec();
            b[i].im = t * x;
            call(f, v, &b, &cfg)
        };
        let d = |t: f64| (at(t) - at(-t)) / (2. * C::i() * t);
        let (d1, d2) = (d(1e-4), d(2e-4));
        let v0 = at(0.);
        if !fin(v0) || !fin(d1) || !fin(d2) || d1.norm() > 1e3 * v0.norm() {
            return Ok(false);
        }
        let mut b = a.to_vec();
        b[i].im = 1e-5 * x;
        let sc = scatter(f, v, a, &cfg) + scatter(f, v, &b, &cfg);
        let mut hit = false;
        for t in [1e-6, 1e-8, 1e-10, 1e-12] {
            let dt = d(t);
            let tol = 3. * (d2 - d1).norm() + 1e-6 * d1.norm() + 50. * (sc + 1e-14 * v0.norm()) / t + 1e-130;
            if tol > 0.1 * d1.norm() {
                continue;
            }
            if !ok((dt - d1).norm(), tol) {
                return Err(format!("{} at {a:?}: the change per imaginary part of argument {i} is {dt:e} for relative imaginary parts of {t:e}, {d1:e} for 1e-4 (tolerance {tol:e})", f.name));
            }
            hit = true;
        }
        Ok(hit)
    };
    Ok(if robust(&a, &ck)? { Hit("next to the axis") } else { Triv("rounding dominated") })
}
fn raw_edge(n: usize) -> BS<Raw> {
    let z = || (pos(), any::<bool>()).prop_map(|(r, t)| (-r, if t { 0. } else { -0. }));
    (0..n, 0..4usize, prop::collection::vec(z(), 8)).prop_map(|(k, v, z)| Raw { k, v, z }).boxed()
}
/// Absolute noise of an integrated function.
fn inoise(f: &Fun, p: &Pt, cf: &Cfg) -> f64 {
    if is_density(f) {
        return 1e-8;
    }
    let n: f64 = if f.name.contains("config") { 1. + cf.quarks.iter().map(|q| q.0 as f64).sum::<f64>() } else { 1. };
    match eval(f, p, &cf.build()) {
        Some(v) => noise(f, p, v, n * if fam(f.name) == Fam::ZMat { 5e-7 } else { 1e-8 }),
        None => f64::INFINITY,
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ip {
    ks: Vec<usize>,
    p: Pt,
    cf: Cfg,
    k: f64,
}
fn ip(n: usize) -> BS<Ip> {
    (prop::collection::vec(0..n, 4), pt(), cfg(), logu(0.4, 2.5)).prop_map(|(ks, p, cf, k)| Ip { ks, p, cf, k }).boxed()
}
fn ifuns() -> Vec<&'static Fun> {
    FUNS.iter().filter(|f| is_integrated(f) && !f.name.contains("chemical_potential")).collect()
}
fn c02_int(fs: &[&'static Fun], i: &Ip) -> Res {
    let cfg = i.cf.build();
    let mut hit = false;
    for k in &i.ks {
        let f = fs[k % fs.len()];
        if f.vars.len() < 2 {
            continue;
        }
        hit |= persistent(&i.p, &|p| {
            let mut q = p.clone();
            q.om = (p.om().norm(), 0.);
            let mut h = forms(f, &q.argv(f), &cfg, inoise(f, &q, &i.cf))?;
            let n = inoise(f, p, &i.cf);
            let a = p.argv(f);
            let v = f.vars.len() - 1;
            h |= conjugate(f, v, &a, &cfg, true, n)?;
            h |= conjugate(f, v, &a, &cfg, false, n)?;
            Ok(h)
        })?;
    }
    Ok(if hit { Hit("resolved") } else { Triv("below the tolerance") })
}
fn c02() -> Subs {
    let vac = sel(is_vac);
    let pw = sel(is_pointwise);
    let it = ifuns();
    let (nv, np, ni) = (vac.len(), pw.len(), it.len());
    let cut = vac.clone();
    let edge = vac.clone();
    let near: Vec<_> = vac.iter().chain(&pw).filter(|f| f.vars.len() > 1).copied().collect();
    let nn = near.len();
    vec![
        Box::new(sub("c02-near-axis", (100000, 3000000), move || raw(4 * nn), move |r| c02_near(&near, r))),
        Box::new(sub("c02-on-cut", (60000, 2000000), move || raw_edge(nv), move |r| c02_edge(&edge, r))),
        Box::new(sub("c02-cut", (60000, 2000000), move || raw_cut(nv), move |r| c02_raw(&cut, r))),
        Box::new(sub("c02-vacuum", (60000, 2000000), move || raw_vac(nv), move |r| c02_raw(&vac, r))),
        Box::new(sub("c02-pointwise", (150000, 5000000), move || raw(np), move |r| c02_raw(&pw, r))),
        Box::new(sub("c02-integrated", (1500, 60000), move || ip(ni), move |i| c02_int(&it, i)).shrink(60)),
    ]
}

// ---------------------------------------------------------------- C13
/// Mass dimension of a function's result.
fn dim(name: &str) -> i32 {
    let b = base(name);
    let lt = b.contains("_l") || b.contains("_t_") || b.ends_with("_t");
    if b.starts_with("tlog") {
        if lt { 4 } else { 0 }
    } else if b.starts_with("propagator") {
        -2
    } else if b.starts_with("dressing") || b.contains("distribution") {
        0
    } else if b.starts_with("polarization") || b.starts_with("self_energy") {
        if b.ends_with("_i") { 1 } else { 2 }
    } else if b.starts_with("charge_density") {
        3
    } else if b == "energy_squared" {
        2
    } else if b == "energy" || b == "fermi_momentum" || b.starts_with("chemical_potential") {
        1
    } else {
        // loop integrands: [d_|d2_](i|j)_...
        let core = b.trim_start_matches("d2_").trim_start_matches("d_");
        let d = if b.starts_with("d2_") { -4 } else if b.starts_with("d_") { -2 } else { 0 };
        let z = if core.starts_with('j') { 1 } else { -1 };
        d + z + if core.contains("_l_") || core.contains("_t_") { 2 } else { 0 }
    }
}
fn argdim(n: &str) -> i32 {
    match n {
        "om" | "q" | "p" | "m" | "m1" | "m2" | "mq" | "en" | "mu" => 1,
        "beta" => -1,
        "delta" => 2,
        "n" => 3,
        _ => 0,
    }
}
fn scaled(f: &Fun, a: &[C], k: f64) -> Vec<C> {
    a.iter().zip(f.args).map(|(z, n)| z * k.powi(argdim(n))).collect()
}
fn scale_cfg(c: &Cfg, k: f64) -> Cfg {
    Cfg { nc: c.nc, m: c.m * k, quarks: c.quarks.iter().map(|q| (q.0, q.1 * k)).collect() }
}
fn relation(f: &Fun, v: usize, a: &[C], b: &[C], k: f64, what: &str, cfg: &FieldConfig) -> Result<bool, String> {
    let (x, y) = (call(f, v, a, cfg), call(f, v, b, cfg));
    if !fin(x) || !fin(y) || x.norm() > 1e200 || (x.norm() < 1e-200 && x.norm() > 0.) {
        return Ok(false);
    }
    let tol = 1e-140 + 1e-11 * x.norm() + 50. * (scatter(f, v, a, cfg) + scatter(f, v, b, cfg) / k.abs());
    if !ok((y / k - x).norm(), tol) {
        return Err(format!("{} {what}: {x:e} at {a:?} but {y:e} at {b:?}: ratio should be {k:e} (tolerance {tol:e})", f.name));
    }
    Ok(tol < 1e-3 * x.norm())
}
fn c13_raw(fs: &[&'static Fun], r: &Raw, k: f64) -> Res {
    let f = fs[r.k % fs.len()];
    let cfg = crate::integrands::dummy_cfg();
    let v = r.v % f.vars.len();
    let a0 = r.args(f, f.vars[v].mask);
    let mut hit = false;
    hit |= robust(&a0, &|a| relation(f, v, a, &scaled(f, a, k), k.powi(dim(f.name)), "does not scale", cfg))?;
    let flip = |a: &[C], n: &str| -> Vec<C> { a.iter().zip(f.args).map(|(z, m)| if *m == n { -z } else { *z }).collect() };
    if f.args.contains(&"om") && !f.name.contains("tlog") {
        hit |= robust(&a0, &|a| relation(f, v, a, &flip(a, "om"), 1., "is not even in the frequency", cfg))?;
    }
    if f.args.contains(&"p") && !f.name.contains("tlog") {
        hit |= robust(&a0, &|a| relation(f, v, a, &flip(a, "p"), 1., "is not even in the spatial momentum", cfg))?;
    }
    if f.args.contains(&"mu") && (f.name.contains("double") || f.name.contains("quark") || f.name.ends_with("fermi_momentum")) {
        hit |= robust(&a0, &|a| relation(f, v, a, &flip(a, "mu"), 1., "is not even in the chemical potential", cfg))?;
    }
    for n in ["m", "m1", "m2", "mq"] {
        if f.args.contains(&n) {
            hit |= robust(&a0, &|a| relation(f, v, a, &flip(a, n), 1., "depends on the sign of a mass", cfg))?;
        }
    }
    Ok(if hit { Hit("resolved") } else { Triv("rounding dominated") })
}
pub fn scale_pt(p: &Pt, k: f64) -> Pt {
    Pt { om: (k * p.om.0, k * p.om.1), p: k * p.p, m: k * p.m, m2: k * p.m2, mq: k * p.mq, q: k * p.q, beta: p.beta / k, mu: k * p.mu, ..p.clone() }
}
fn c13_int(fs: &[&'static Fun], i: &Ip) -> Res {
    let _r = Reset;
    c13_rel(fs, i, true)
}
fn c13_rel(fs: &[&'static Fun], i: &Ip, regulated: bool) -> Res {
    let mut hit = false;
    for kf in &i.ks {
        let f = fs[kf % fs.len()];
        let neg = if f.name.contains("charge_density") { -1. } else { 1. };
        hit |= persistent(&i.p, &|p| {
            let at = |p: &Pt, c: &Cfg| eval(f, p, &c.build());
            let Some(x) = at(p, &i.cf) else { return Ok(false) };
            if !fin(x) {
                return Ok(false);
            }
            let n = inoise(f, p, &i.cf) + 1e-9 * x.norm();
            let mut h = n < 1e-3 * x.norm();
            let cmp = |y: Option<C>, k: f64, n2: f64, what: &str| {
                let y = y.unwrap();
                let tol = 2. * (n + n2 / k.abs());
                if ok((y / k - x).norm(), tol) { Ok(()) } else { Err(format!("{} {what}: {x:e}, but {y:e} should be {k:e} times that (tolerance {tol:e})", f.name)) }
            };
            if f.args.contains(&"om") {
                cmp(at(&Pt { om: (-p.om.0, -p.om.1), ..p.clone() }, &i.cf), 1., n, "is not even in the frequency")?;
            }
            if f.args.contains(&"p") {
                cmp(at(&Pt { p: -p.p, ..p.clone() }, &i.cf), 1., n, "is not even in the spatial momentum")?;
            }
            if f.args.contains(&"mu") {
                cmp(at(&Pt { mu: -p.mu, ..p.clone() }, &i.cf), neg, n, "does not have the right parity in the chemical potential")?;
            }
            let c = Cfg { nc: i.cf.nc, m: i.cf.m, quarks: i.cf.quarks.iter().map(|q| (q.0, -q.1)).collect() };
            cmp(at(&Pt { m: -p.m, mq: -p.mq, ..p.clone() }, &c), 1., n, "depends on the sign of the masses")?;
            let c = Cfg { m: -c.m, ..c };
            cmp(at(&Pt { mq: -p.mq, ..p.clone() }, &c), 1., n, "depends on the sign of the masses")?;
            let q = scale_pt(p, i.k);
            let c = scale_cfg(&i.cf, i.k);
            if regulated {
                consts::set_matsubara_reg(1e-5 * i.k);
            }
            let y = at(&q, &c);
            let n2 = inoise(f, &q, &c);
            if regulated {
                consts::set_matsubara_reg(1e-5);
            }
            let k = i.k.powi(dim(f.name));
            cmp(y, k, n2, "does not scale with its mass dimension")?;
            h &= n2 / k < 1e-3 * x.norm();
            Ok(h)
        })?;
    }
    Ok(if hit { Hit("resolved") } else { Triv("below the tolerance") })
}
fn c13() -> Subs {
    let pw = sel(is_pointwise);
    let it = ifuns();
    let zm: Vec<_> = it.iter().copied().filter(|f| fam(f.name) == Fam::ZMat).collect();
    let rest: Vec<_> = it.iter().copied().filter(|f| fam(f.name) != Fam::ZMat).collect();
    let (np, nz, nr) = (pw.len(), zm.len(), rest.len());
    let k = || prop_oneof![2 => logu(1e-2, 1e2), 1 => prop::sample::select(vec![0.5, 2., 4., 1024.]), 2 => (-60..60i32).prop_map(|e| 2f64.powi(e))];
    vec![
        Box::new(sub("c13-pointwise", (100000, 4000000), move || (raw(np), k()), move |(r, k)| c13_raw(&pw, r, *k))),
        Box::new(sub("c13-integrated", (1500, 60000), move || ip(nr), move |i| c13_int_shared(&rest, i)).shrink(60)),
        Box::new(sub("c13-integrated-zmat", (300, 8000), move || ip(nz), move |i| c13_int(&zm, i)).exclusive().shrink(60)),
    ]
}
/// Same relations for functions which do not depend on the regulator (no global state touched).
fn c13_int_shared(fs: &[&'static Fun], i: &Ip) -> Res {
    c13_rel(fs, i, false)
}

// ---------------------------------------------------------------- C24
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fa {
    pub k: usize,
    pub z: Vec<(Fx, Fx)>,
}
fn anyreal() -> BS<Fx> {
    prop_oneof![
        8 => sgnd(pos()),
        3 => sgnd(logu(1e-12, 1e12)),
        1 => prop::sample::select(vec![0., -0., 1., -1., f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e308, -1e308, 5e-324, 1e-300]),
    ]
    .prop_map(Fx)
    .boxed()
}
pub fn fa(n: usize) -> BS<Fa> {
    (0..n, any::<bool>(), prop::collection::vec((anyreal(), anyreal(), pos()), 8))
        .prop_map(|(k, tame, v)| Fa { k, z: v.into_iter().map(|(a, b, p)| if tame { (Fx(p), b) } else { (a, b) }).collect() })
        .boxed()
}
fn c24(a: &Fa) -> Res {
    let f = &FFI[a.k];
    let n = &FUNS[f.native];
    let args: Vec<C> = (0..n.args.len())
        .map(|i| {
            let z = &a.z[i % a.z.len()];
            C::new(z.0 .0, if f.mask >> i & 1 == 1 { z.1 .0 } else { 0. })
        })
        .collect();
    let v = n.vars.iter().position(|v| v.mask == f.mask).ok_or(format!("{}: no native variant", f.name))?;
    let cfg = crate::integrands::dummy_cfg();
    let want = call(n, v, &args, cfg);
    let got = eval_ffi(f, &args, cfg);
    let bits = |z: C| (z.re.to_bits(), z.im.to_bits());
    let same = bits(want) == bits(got)
        || if fin(want) {
            (got - want).norm() <= 1e-12 * want.norm() + 50. * scatter(n, v, &args, cfg)
        } else {
            !fin(got)
        };
    if !same {
        return Err(format!("exported {} at {args:?} = {got:e}, but native {} = {want:e}", f.name, n.name));
    }
    Ok(if fin(want) && want.norm() > 0. { Hit(if f.mask == 0 { "real" } else { "complex" }) } else { Triv("zero or not finite") })
}

// ---------------------------------------------------------------- C30
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    fs: Vec<(usize, usize)>,
    pts: Vec<Pt>,
    cf: Cfg,
    order: Vec<u32>,
}
fn settings() -> (u32, u32, u64, u64, u32, u64) {
    (
        consts::get_number_of_colors(),
        consts::get_number_of_fermions(),
        consts::get_default_quark_mass().to_bits(),
        consts::get_default_tol_integral().to_bits(),
        consts::get_default_max_iter_integral(),
        consts::get_matsubara_reg().to_bits(),
    )
}
fn c30(fs: &[&'static Fun], h: &Hist) -> Res {
    let before = settings();
    let cfg = h.cf.build();
    let one = |(f, p): &(usize, usize)| {
        let f = fs[f % fs.len()];
        eval(f, &h.pts[p % h.pts.len()], &cfg).map(|z| (z.re.to_bits(), z.im.to_bits()))
    };
    // each call on its own, in the given order
    let first: Vec<_> = h.fs.iter().map(one).collect();
    let mut perm: Vec<usize> = (0..h.fs.len()).collect();
    for (i, o) in h.order.iter().enumerate() {
        let n = perm.len();
        if n > 0 {
            perm.swap(i % n, *o as usize % n);
        }
    }
    let diff = |i: usize, again: Option<(u64, u64)>, how: &str| {
        let nan = |z: (u64, u64)| f64::from_bits(z.0).is_nan() || f64::from_bits(z.1).is_nan();
        if again == first[i] || matches!((again, first[i]), (Some(a), Some(b)) if nan(a) && nan(b)) {
            return Ok(());
        }
        let sh = |o: Option<(u64, u64)>| o.map(|z| C::new(f64::from_bits(z.0), f64::from_bits(z.1)));
        Err(format!("{} gave {:?} at first but {:?} {how}", fs[h.fs[i].0 % fs.len()].name, sh(first[i]), sh(again)))
    };
    for &i in &perm {
        diff(i, one(&h.fs[i]), "when evaluated again in another order")?;
    }
    // concurrently, three threads with different orders
    let res: Vec<Vec<(usize, Option<(u64, u64)>)>> = std::thread::scope(|s| {
        let js: Vec<_> = (0..3)
            .map(|t| {
                let (perm, one, fsl) = (&perm, &one, &h.fs);
                s.spawn(move || {
                    let n = perm.len();
                    (0..n).map(|j| perm[(j + t * n / 3) % n]).map(|i| (i, one(&fsl[i]))).collect::<Vec<_>>()
                })
            })
            .collect();
        js.into_iter().map(|j| j.join().unwrap()).collect()
    });
    for r in res {
        for (i, v) in r {
            diff(i, v, "when evaluated concurrently")?;
        }
    }
    if settings() != before {
        return Err(format!("evaluating functions changed the global settings: {before:?} -> {:?}", settings()));
    }
    Ok(if h.fs.len() > 1 { Hit("history") } else { Triv("single call") })
}
fn hist(n: usize, len: usize) -> BS<Hist> {
    (prop::collection::vec((0..n, 0..3usize), 1..len), prop::collection::vec(pt(), 1..4), cfg(), prop::collection::vec(any::<u32>(), len))
        .prop_map(|(fs, pts, cf, order)| Hist { fs, pts, cf, order })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C02",
            rule: "a case counts when some compared pair had a tolerance below 1e-3 of its value",
            assumptions: &["rounding noise is estimated from random relative perturbations of 1e-13 of the arguments", "scales of order one for integrated functions"],
            subs: c02,
            init: None,
        },
        Property {
            id: "C13",
            rule: "a case counts when some relation was compared with a tolerance below 1e-3 of the value",
            assumptions: &["rounding noise is estimated from random relative perturbations of 1e-13 of the arguments", "scales of order one for integrated functions"],
            subs: c13,
            init: None,
        },
        Property {
            id: "C24",
            rule: "a case counts when the native value is finite and not zero",
            assumptions: &[],
            subs: || {
                let n = FFI.len();
                vec![Box::new(sub("c24-ffi", (400000, 10000000), move || fa(n), c24))]
            },
            init: None,
        },
        Property {
            id: "C30",
            rule: "a case counts when more than one call was made",
            assumptions: &["thread schedules are whatever the operating system produces"],
            subs: || {
                let (pw, it) = (FUNS.iter().filter(|f| !is_integrated(f)).collect::<Vec<_>>(), ifuns());
                let (np, ni) = (pw.len(), it.len());
                vec![
                    Box::new(sub("c30-pointwise", (3000, 100000), move || hist(np, 60), move |h| c30(&pw, h))),
                    Box::new(sub("c30-integrated", (150, 6000), move || hist(ni, 12), move |h| c30(&it, h)).shrink(60)),
                    Box::new(sub("c30-fresh", (1000, 40000), crate::history::hist, crate::history::fresh).shrink(200)),
                ]
            },
            init: None,
        },
    ]
}
