//! C21, C22: root finding, residues and spectral functions.
use crate::ea::*;
use crate::fw::*;
use crate::gens::*;
use proptest::prelude::*;
use qcd_sme::utils::*;
use qcd_sme::Num;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::f64::consts::PI;

/// Test functions.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fk {
    /// product of (z - root), times a factor
    Poly(Vec<(f64, f64)>, (f64, f64)),
    /// a (exp(b z) - c)
    Exp(f64, f64, f64),
    /// sin-like: no decay
    Sin(f64, f64),
    /// arctan-like: secant may diverge
    Atan(f64, f64),
    /// step function with a jump at the root (no zero)
    Step(f64, f64),
    /// constant
    Const(f64),
    /// not a number beyond some point
    Nan(f64, f64),
    /// 1/(z - a): no zero
    Pole(f64),
    /// |z - a|^p sign
    Power(f64, f64),
}
fn real(f: &Fk, z: f64) -> f64 {
    match f {
        Fk::Poly(r, k) => r.iter().fold(k.0, |a, r| a * (z - r.0)),
        Fk::Exp(a, b, c) => a * ((b * z).exp() - c),
        Fk::Sin(a, b) => a * (b * z).sin(),
        Fk::Atan(a, b) => a * (z - b).atan(),
        Fk::Step(a, b) => {
            if z > *a { *b } else { -b - 0.5 }
        }
        Fk::Const(a) => *a,
        Fk::Nan(a, b) => (z - a) / if z > *b { f64::NAN } else { 1. },
        Fk::Pole(a) => 1. / (z - a),
        Fk::Power(a, p) => (z - a).signum() * (z - a).abs().powf(*p),
    }
}
fn cplx(f: &Fk, z: C) -> C {
    match f {
        Fk::Poly(r, k) => r.iter().fold(c(*k), |a, r| a * (z - c(*r))),
        Fk::Exp(a, b, c) => ((z * b).exp() - c) * *a,
        Fk::Sin(a, b) => (z * b).sin() * *a,
        Fk::Atan(a, b) => (z - b).atan() * *a,
        Fk::Step(a, b) => C::new(if z.re > *a { *b } else { -b - 0.5 }, z.im),
        Fk::Const(a) => C::new(*a, *a),
        Fk::Nan(a, b) => (z - a) / if z.re > *b { f64::NAN } else { 1. },
        Fk::Pole(a) => (z - a).inv(),
        Fk::Power(a, p) => (z - a).powf(*p),
    }
}
fn fk() -> BS<Fk> {
    let r = || uni(-5., 5.);
    prop_oneof![
        4 => (prop::collection::vec((r(), r()), 1..5), (sgnd(logu(1e-2, 1e2)), r())).prop_map(|(r, k)| Fk::Poly(r, k)),
        2 => (sgnd(logu(1e-2, 1e2)), r(), logu(1e-2, 1e2)).prop_map(|(a, b, c)| Fk::Exp(a, b, c)),
        1 => (sgnd(logu(1e-2, 1e2)), sgnd(logu(0.1, 5.))).prop_map(|(a, b)| Fk::Sin(a, b)),
        1 => (sgnd(logu(1e-2, 1e2)), r()).prop_map(|(a, b)| Fk::Atan(a, b)),
        1 => (r(), logu(1e-3, 10.)).prop_map(|(a, b)| Fk::Step(a, b)),
        1 => r().prop_map(Fk::Const),
        1 => (r(), r()).prop_map(|(a, b)| Fk::Nan(a, b)),
        1 => r().prop_map(Fk::Pole),
        1 => (r(), logu(0.2, 4.)).prop_map(|(a, b)| Fk::Power(a, b)),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rt {
    f: Fk,
    g0: (f64, f64),
    g1: (f64, f64),
    tol: f64,
    it: usize,
    more: usize,
}
fn rt() -> BS<Rt> {
    let g = || (uni(-8., 8.), uni(-8., 8.));
    (fk(), g(), g(), logu(1e-14, 10.), prop_oneof![1 => 0..6usize, 3 => 6..80usize], 1..60usize)
        .prop_map(|(f, g0, g1, tol, it, more)| Rt { f, g0, g1, tol, it, more })
        .boxed()
}
trait Bits: Num {
    fn bits(self) -> (u64, u64);
}
impl Bits for f64 {
    fn bits(self) -> (u64, u64) {
        (self.to_bits(), 0)
    }
}
impl Bits for C {
    fn bits(self) -> (u64, u64) {
        (self.re.to_bits(), self.im.to_bits())
    }
}
fn contract<T: Bits + std::fmt::Debug>(f: &dyn Fn(T) -> T, g: (T, T), r: &Rt) -> Result<Class, String> {
    let calls = RefCell::new(vec![]);
    let h = |z: T| {
        calls.borrow_mut().push(z);
        f(z)
    };
    let res = find_root(&h, g, r.tol, r.it);
    let n = calls.borrow().len();
    if n > r.it + 2 {
        return Err(format!("find_root evaluated the function {n} times with max_iter = {}", r.it));
    }
    let again = find_root(&f, g, r.tol, r.it);
    let same = |a: &Option<(T, T)>, b: &Option<(T, T)>| match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.0.bits() == b.0.bits() && a.1.bits() == b.1.bits(),
        _ => false,
    };
    if !same(&res, &again) {
        return Err(format!("find_root gave {res:?} and then {again:?}"));
    }
    let Some((z, v)) = res else {
        // a function value below the tolerance at the first two evaluations cannot be missed with iterations left
        if r.it > 0 && f(g.1).abs() < r.tol {
            return Err(format!("find_root found nothing although |f| = {:e} < {:e} at the second guess", f(g.1).abs(), r.tol));
        }
        return Ok(Triv("none"));
    };
    let w = f(z);
    if v.abs().is_nan() || z.abs().is_nan() {
        return Err(format!("find_root returned {z:?}, {v:?}"));
    }
    if w.bits() != v.bits() {
        return Err(format!("find_root returned ({z:?}, {v:?}) but the function is {w:?} there"));
    }
    if v.abs() >= r.tol {
        return Err(format!("find_root returned ({z:?}, {v:?}) with tolerance {:e}", r.tol));
    }
    // a larger limit on the iterations changes nothing
    let longer = find_root(&f, g, r.tol, r.it + r.more);
    if !same(&res, &longer) {
        return Err(format!("find_root gave {res:?} with {} iterations but {longer:?} with {}", r.it, r.it + r.more));
    }
    Ok(Hit("root"))
}
fn c21_contract(r: &Rt) -> Res {
    if r.g0.0 == r.g1.0 {
        return Ok(Triv("equal guesses"));
    }
    let a = contract::<f64>(&|z| real(&r.f, z), (r.g0.0, r.g1.0), r)?;
    let b = contract::<C>(&|z| cplx(&r.f, z), (c(r.g0), c(r.g1)), r)?;
    Ok(match (a, b) {
        (Hit(_), Hit(_)) => Hit("both"),
        (Hit(_), _) => Hit("real"),
        (_, Hit(_)) => Hit("complex"),
        (a, _) => a,
    })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lin {
    a: (f64, f64),
    r: (f64, f64),
    g0: (f64, f64),
    g1: (f64, f64),
    it: usize,
}
/// Linear functions: the secant through the guesses is the function.
fn c21_linear(l: &Lin) -> Res {
    let (a, r, g0, g1) = (c(l.a), c(l.r), c(l.g0), c(l.g1));
    let sep = (g0 - g1).norm();
    if (l.g0.0 - l.g1.0).abs() < 1e-3 * (1. + l.g0.0.abs()) || sep < 1e-3 {
        return Ok(Triv("guesses too close"));
    }
    let cond = (r.norm() + g0.norm() + g1.norm()).powi(2) / (l.g0.0 - l.g1.0).abs();
    let tol = 1e-13 * a.norm() * cond * 10.;
    match find_root(&|z: C| a * (z - r), (g0, g1), tol, 2 + l.it) {
        Some((z, _)) if (z - r).norm() <= 2. * tol / a.norm() => {}
        o => return Err(format!("find_root on {a} (z - {r}) from {g0}, {g1} gave {o:?}")),
    }
    let (ar, rr) = (a.norm() * l.a.0.signum(), l.r.0);
    match find_root(&|z: f64| ar * (z - rr), (l.g0.0, l.g1.0), tol, 2 + l.it) {
        Some((z, _)) if (z - rr).abs() <= 2. * tol / a.norm() => Ok(Hit("linear")),
        o => Err(format!("find_root on {ar} (z - {rr}) from {}, {} gave {o:?}", l.g0.0, l.g1.0)),
    }
}
/// Simple roots of polynomials and of a transcendental function from guesses close to them.
fn c21_converges(roots: &[(f64, f64)], k: (f64, f64), d: (f64, f64), off: f64) -> Res {
    let rs: Vec<C> = roots.iter().map(|r| c(*r)).collect();
    let r0 = rs[0];
    let sep = rs[1..].iter().map(|r| (r - r0).norm()).fold(1., f64::min);
    if sep < 0.05 {
        return Ok(Triv("roots too close"));
    }
    let f = |z: C| rs.iter().fold(c(k), |a, r| a * (z - r));
    let slope = rs[1..].iter().fold(c(k), |a, r| a * (r0 - r)).norm();
    let dir = C::new(d.0, d.1) / c(d).norm();
    // within a small fraction of the distance to the next root the secant method contracts
    let g = (r0 + dir * sep * 0.05, r0 + dir * sep * 0.05 * off);
    let tol = slope * 1e-9;
    match find_root(&f, g, tol, 30) {
        Some((z, _)) if (z - r0).norm() < 3e-9 => {}
        o => return Err(format!("find_root on the polynomial with roots {rs:?} from {g:?} gave {o:?}, root {r0} expected")),
    }
    // real: a (exp(b (x - x0)) - 1)
    let (a, b, x0) = (k.0 + 0.1 * k.0.signum() + 1e-3, d.0 + d.0.signum() * 0.01, roots[0].0);
    let h = 0.05 / b.abs().max(0.01);
    let f = |x: f64| a * (b * (x - x0)).exp_m1();
    match find_root(&f, (x0 + h, x0 + h * off), (a * b).abs() * 1e-9, 30) {
        Some((z, _)) if (z - x0).abs() < 1e-8 => Ok(Hit("simple root")),
        o => Err(format!("find_root on {a} (exp({b} (x - {x0})) - 1) from {h:e}, {:e} beyond the root gave {o:?}", h * off)),
    }
}
/// Equal guesses and non-positive tolerances are rejected.
fn c21_rejects(g: f64, tol: f64) -> Res {
    let f = |z: f64| z - 1.;
    let fc = |z: C| z - 1.;
    let bad = |what: &str, r: Result<String, String>| match r {
        Err(_) => Ok(()),
        Ok(s) => Err(format!("find_root accepted {what} (guess {g}, tolerance {tol:e}) and returned {s}")),
    };
    bad("equal guesses", guarded(|| format!("{:?}", find_root(&f, (g, g), 1e-3, 10))))?;
    bad("equal guesses", guarded(|| format!("{:?}", find_root(&fc, (C::new(g, 1.), C::new(g, 1.)), 1e-3, 10))))?;
    let t = -tol.abs();
    for t in [t, 0., -0., f64::NAN, f64::NEG_INFINITY] {
        bad("a non-positive tolerance", guarded(|| format!("{:?}", find_root(&f, (g, g + 1.), t, 10))))?;
        bad("a non-positive tolerance", guarded(|| format!("{:?}", find_root(&fc, (C::new(g, 0.), C::new(g, 1.)), t, 10))))?;
    }
    // guesses which differ in one component only are fine
    match guarded(|| find_root(&fc, (C::new(g, 0.), C::new(g, 1.)), 1e-3, 10)) {
        Ok(Some((z, _))) if (z - 1.).norm() < 1e-2 => Ok(Hit("rejected")),
        o => Err(format!("find_root on z - 1 from {g}, {g} + i: {o:?}")),
    }
}

// ---------------------------------------------------------------- C22
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rs {
    z0: (f64, f64),
    r: (f64, f64),
    b: (f64, f64),
    s: (f64, f64),
    eps: f64,
}
fn rs() -> BS<Rs> {
    let g = || cplane(logu(0.05, 10.));
    (g(), g(), g(), g(), logu(1e-12, 1e-2)).prop_map(|(z0, r, b, s, eps)| Rs { z0, r, b, s, eps }).boxed()
}
fn near(what: &str, got: C, want: C, tol: f64) -> Result<(), String> {
    let d = (got - want).norm();
    if d.is_nan() || d > tol {
        return Err(format!("{what}: {got:e} should be {want:e} (tolerance {tol:e})"));
    }
    Ok(())
}
fn c22_residue(a: &Rs) -> Res {
    let (z0, r, b, s, eps) = (c(a.z0), c(a.r), c(a.b), c(a.s), a.eps);
    // rounding of z0 +- eps
    let rnd = 8. * U * (1. + z0.norm() / eps);
    let pure = |z: C| r / (z - z0);
    near(&format!("residue of a pure pole at {z0} with eps = {eps:e}"), compute_residue_with_eps(&pure, z0, eps), r, r.norm() * (1e-12 + rnd))?;
    let f = |z: C| r / (z - z0) + b + s * (z - z0);
    let q = eps / r.norm();
    let t = 2. * ((b.norm() * q).powi(2) + s.norm() * q * eps) + rnd * (1. + b.norm() * q + s.norm() * q * eps) + 1e-12;
    if t < 0.3 {
        let v = compute_residue_with_eps(&f, z0, eps);
        near(&format!("residue at {z0} with eps = {eps:e}, background {b} + {s}(z - z0)"), v, r, r.norm() * 3. * t)?;
        // linear in the function, independent of the position of the pole
        let k = b / s;
        let g = |z: C| k * f(z);
        near("residue of a multiple", compute_residue_with_eps(&g, z0, eps), v * k, (v * k).norm() * (1e-12 + 3. * rnd))?;
    }
    // default epsilon is 1e-12
    near("residue with default epsilon", compute_residue(&f, z0), compute_residue_with_eps(&f, z0, 1e-12), 1e-12 * compute_residue(&f, z0).norm())?;
    let at0 = |z: C| r / z + b;
    near("residue with default epsilon of a pole at the origin", compute_residue(&at0, C::new(0., 0.)), r, r.norm() * 1e-10)?;
    // real functions
    let (x0, rr, bb) = (a.z0.0, a.r.0 + 0.01 * a.r.0.signum() + 1e-3, a.b.0);
    let fr = |x: f64| rr / (x - x0) + bb;
    let t = 2. * (bb * eps / rr).powi(2) + rnd * (1. + (bb * eps / rr).abs()) + 1e-12;
    if t < 0.3 {
        near(&format!("residue of a real function at {x0} with eps = {eps:e}"), C::new(compute_residue_with_eps(&fr, x0, eps), 0.), C::new(rr, 0.), rr.abs() * 3. * t)?;
    }
    near("default epsilon of a real residue", C::new(compute_residue(&|x: f64| rr / x, 0.), 0.), C::new(rr, 0.), rr.abs() * 1e-10)?;
    Ok(if t < 1e-3 { Hit("resolved") } else { Triv("not resolved") })
}
/// The points at which the default versions evaluate the function tell their epsilon.
fn c22_points(a: &Rs) -> Res {
    let z0 = c(a.z0);
    let seen: RefCell<Vec<C>> = RefCell::new(vec![]);
    let rec = |z: C| {
        seen.borrow_mut().push(z);
        c(a.r) / (z - z0 + c(a.b))
    };
    let check = |what: &str, want: [C; 2]| {
        let mut got = seen.borrow_mut();
        for w in want {
            if !got.iter().any(|z| (z - w).norm() <= 4. * U * (w.norm() + 1e-300)) {
                return Err(format!("{what} was not evaluated at {w:e} but at {got:?}"));
            }
        }
        got.clear();
        Ok(())
    };
    let i = C::new(0., 1.);
    let e = a.eps;
    let _ = compute_residue_with_eps(&rec, z0, e);
    check("residue", [z0 + e, z0 - e])?;
    let _ = compute_residue(&rec, C::new(0., 0.));
    check("residue with default epsilon", [C::new(1e-12, 0.), C::new(-1e-12, 0.)])?;
    let _ = spectral_function_with_eps(rec, z0, e);
    check("spectral function", [z0 + i * e, z0 - i * e])?;
    let _ = spectral_function(rec, C::new(0., 0.));
    check("spectral function with default epsilon", [i * 1e-12, -i * 1e-12])?;
    Ok(Hit("points"))
}
fn c22_spectral(a: &Rs) -> Res {
    let (z0, r, b, s, eps) = (c(a.z0), c(a.r), c(a.b), c(a.s), a.eps);
    let i = C::new(0., 1.);
    let k = 1. / (2. * PI);
    // definition, any function: pole, polynomial, logarithm
    let fs: [(&str, Box<dyn Fn(C) -> C>); 4] = [
        ("pole", Box::new(move |z| r / (z - z0 - b))),
        ("polynomial", Box::new(move |z| r + b * z + s * z * z)),
        ("logarithm", Box::new(move |z| r * (z0 - z).ln())),
        ("root", Box::new(move |z| r * (z0 - z).sqrt())),
    ];
    let mut hit = false;
    for (n, f) in &fs {
        for x in [z0 + s, s, C::new(z0.re + a.s.0.abs(), z0.im), C::new(a.s.0, 0.)] {
            let (p, m) = (f(x + i * eps), f(x - i * eps));
            let w = i * (p - m) * k;
            let got = spectral_function_with_eps(f, x, eps);
            near(&format!("spectral function of a {n} at {x} with eps = {eps:e}"), got, w, 1e-13 * (p.norm() + m.norm()))?;
            hit |= w.norm() > 1e-9 * (p.norm() + m.norm());
        }
    }
    // cut of the logarithm along real z > z0: discontinuity -2 pi i, spectral function 1
    let lg = |z: C| (C::new(a.z0.0, 0.) - z).ln();
    let x = C::new(a.z0.0 + a.s.0.abs() + 1e-2, 0.);
    let d = (x.re - a.z0.0).abs();
    // phases are pi - eps/d
    near("spectral function of a logarithm on its cut", spectral_function_with_eps(lg, x, eps), C::new(1., 0.), eps / d + 1e-12)?;
    near("spectral function of a logarithm on its cut, default epsilon", spectral_function(lg, x), C::new(1., 0.), 1e-9)?;
    // analytic: vanishes with eps
    let an = |z: C| r + b * z + s * z * z;
    let der = b + s * x * 2.;
    near("spectral function where analytic", spectral_function_with_eps(an, x, eps), -der * eps / PI, 1e-13 * (r.norm() + (b * x).norm() + (s * x * x).norm()))?;
    near("spectral function where analytic, default epsilon", spectral_function(an, x), C::new(0., 0.), 1e-11 * (1. + r.norm() + der.norm() + (b * x).norm() + (s * x * x).norm()))?;
    // Lorentzian of a simple pole: positive, of unit area
    let y = C::new(0.5 * eps, 0.);
    let pole = |z: C| z.inv();
    near("spectral function of a pole", spectral_function_with_eps(pole, y, eps), C::new(eps / (PI * (y.re * y.re + eps * eps)), 0.), 1e-11 / eps)?;
    near("spectral function of a pole, default epsilon", spectral_function(pole, C::new(2e-12, 0.)), C::new(1. / (5. * PI * 1e-12), 0.), 1.)?;
    Ok(if hit { Hit("discontinuity") } else { Triv("analytic") })
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C21",
            rule: "a case counts when a root was returned and verified, or a rejection was observed",
            assumptions: &["functions propagate NaN"],
            subs: || {
                let g = || (uni(-8., 8.), uni(-8., 8.));
                let lin = move || {
                    (cplane(logu(1e-3, 1e3)), (uni(-5., 5.), uni(-5., 5.)), g(), g(), 0..50usize).prop_map(|(a, r, g0, g1, it)| Lin { a, r, g0, g1, it })
                };
                let conv = || {
                    (
                        prop::collection::vec((uni(-3., 3.), uni(-3., 3.)), 1..5),
                        (sgnd(logu(0.01, 100.)), uni(-1., 1.)),
                        (sgnd(logu(0.05, 2.)), uni(-1., 1.)),
                        prop_oneof![uni(0.3, 0.95), uni(1.05, 2.), uni(-1., -0.3)],
                    )
                };
                vec![
                    Box::new(sub("c21-contract", (200000, 5000000), rt, c21_contract)),
                    Box::new(sub("c21-linear", (50000, 1000000), lin, c21_linear)),
                    Box::new(sub("c21-converges", (50000, 1000000), conv, |(r, k, d, o)| c21_converges(r, *k, *d, *o))),
                    Box::new(sub("c21-rejects", (500, 5000), || (uni(-5., 5.), logu(1e-12, 1e3)), |(g, t)| c21_rejects(*g, *t))),
                ]
            },
            init: None,
        },
        Property {
            id: "C22",
            rule: "a case counts when the residue was resolved beyond 1e-3 or a discontinuity was seen",
            assumptions: &["epsilon between 1e-12 and 1e-2"],
            subs: || {
                vec![
                    Box::new(sub("c22-residue", (100000, 2000000), rs, c22_residue)),
                    Box::new(sub("c22-points", (20000, 200000), rs, c22_points)),
                    Box::new(sub("c22-spectral", (60000, 1000000), rs, c22_spectral)),
                ]
            },
            init: None,
        },
    ]
}
