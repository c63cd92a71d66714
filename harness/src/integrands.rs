//! C06..C11: thermal integrands (building blocks, derivatives, special masses, limits, polarizations).
use crate::ea::*;
use crate::fw::*;
use crate::gens::*;
use crate::quad;
use crate::refs::{self, Fam, Loop};
use crate::registry::{Ctx, Fun, Var, FUNS};
use proptest::prelude::*;
use qcd_sme::consts;
use qcd_sme::qcd::FieldConfig;
use qcd_sme::Integral;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;
use std::sync::OnceLock;

const K: f64 = 40.;
const TH: &str = "low_level::oneloop::thermal::";

pub fn fun(name: &str) -> &'static Fun {
    FUNS.iter().find(|f| f.name == name).unwrap_or_else(|| panic!("no function {name}"))
}
pub fn dummy_cfg() -> &'static FieldConfig {
    static C: OnceLock<FieldConfig> = OnceLock::new();
    C.get_or_init(|| FieldConfig::new(3, 0.656, vec![(2, 0.35), (1, 0.45)]))
}
pub fn call(v: &Var, a: &[C]) -> C {
    (v.f)(&Ctx { a, integral: Integral::G7K15(1e-10, 50), cfg: dummy_cfg() })
}
/// Evaluate with all variants admissible for these arguments (a complex value needs a variant taking it).
pub fn variants<'a>(f: &'a Fun, a: &'a [C]) -> impl Iterator<Item = &'a Var> + 'a {
    f.vars.iter().filter(move |v| a.iter().enumerate().all(|(i, z)| z.im == 0. || v.mask >> i & 1 == 1))
}
fn base(f: &Fun) -> &str {
    f.name.rsplit("::").next().unwrap()
}
/// family of a low-level thermal function (None when it is not one)
fn fam_of(name: &str) -> Option<Fam> {
    let r = name.strip_prefix(TH)?;
    Some(if r.contains("zero_matsubara") {
        Fam::ZMat
    } else if r.contains("zero_momentum") {
        Fam::ZMom
    } else {
        Fam::Gen
    })
}
fn args(f: &Fun, k: &Kin) -> Vec<C> {
    let r = |x: f64| C::new(x, 0.);
    f.args
        .iter()
        .map(|&n| match n {
            "q" => r(k.q),
            "om" => k.om(),
            "p" => r(k.p),
            "m" | "m1" | "mq" => k.cm1(),
            "m2" => k.cm2(),
            "beta" => r(k.beta),
            "en" => (k.q * k.q + k.cm1() * k.cm1()).sqrt(),
            "delta" => k.cm2() * k.cm2() - k.cm1() * k.cm1(),
            "integral" | "config" => r(0.),
            "mu" => r(0.),
            o => panic!("argument {o}"),
        })
        .collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Log,
    I,
    J,
    DI,
    DJ,
}
/// Which building block is this function? (kind, component, masses)
fn classify(f: &Fun) -> Option<(Kind, char, (char, char))> {
    fam_of(f.name)?;
    if f.name.contains("::ghost::") || f.name.contains("::gluon::") {
        return None;
    }
    let b = base(f);
    let comp = if b.contains("_l_") || b.starts_with("tlog_l") {
        'l'
    } else if b.contains("_t_") || b.starts_with("tlog_t") {
        't'
    } else {
        's'
    };
    let m = |b: &str| {
        if b.starts_with("i_m_m") {
            if b.ends_with("same_mass") {
                ('1', '1')
            } else {
                ('1', '2')
            }
        } else if b.starts_with("i_0_0") {
            ('0', '0')
        } else {
            ('1', '0')
        }
    };
    let jm = |b: &str| if b.contains("j_0") { ('0', '0') } else { ('1', '0') };
    Some(if b.starts_with("tlog") {
        (Kind::Log, comp, if b.ends_with("same_mass") { ('1', '1') } else if b.ends_with("zero_mass") { ('0', '0') } else { ('1', '2') })
    } else if b.starts_with("i_") {
        (Kind::I, comp, m(b))
    } else if let Some(r) = b.strip_prefix("d_i_") {
        (Kind::DI, comp, m(&format!("i_{r}")))
    } else if b.starts_with("j_") {
        (Kind::J, comp, jm(b))
    } else if b.starts_with("d_j_") || b.starts_with("d2_j_") {
        (Kind::DJ, comp, jm(b))
    } else {
        return None;
    })
}
fn mval(k: &Kin, c: char) -> C {
    match c {
        '1' => k.cm1(),
        '2' => k.cm2(),
        _ => C::new(0., 0.),
    }
}
/// the same point with the masses a special function is about
fn special(k: &Kin, a: char, b: char) -> Kin {
    let m = |c| match c {
        '1' => (k.m1, k.ph.0),
        '2' => (k.m2, k.ph.1),
        _ => (0., 0.),
    };
    let ((m1, p1), (m2, p2)) = (m(a), m(b));
    Kin { m1, m2, ph: (p1, p2), ..k.clone() }
}
fn block_ref(f: &Fun, k: &Kin, force: bool) -> Option<E> {
    let fam = fam_of(f.name)?;
    let (kind, comp, (a, b)) = classify(f)?;
    let mut l = Loop::new(fam, k.q, k.om(), k.p, k.beta);
    l.force = force;
    let (m1, m2) = (mval(k, a), mval(k, b));
    Some(match (kind, comp) {
        (Kind::Log, _) => {
            let en = refs::energy(k.q, m1);
            let d = if m1 == m2 && !force { er(0.) } else { ex(m2).sq() - ex(m1).sq() };
            let r = if fam == Fam::ZMat { l.p.sq() + d } else { l.om.sq() + l.p.sq() + d + 2. * EI * l.om * en };
            let w = 2. * l.q * l.p;
            match comp {
                's' => l.log(r),
                'l' => (r + 2. * EI * en * l.p.sq() / l.om).sq() * l.log(r),
                _ => (r + w) * (r - w) * l.log(r),
            }
        }
        (Kind::I, 's') => l.i(m1, m2),
        (Kind::I, 'l') => l.il(m1, m2),
        (Kind::I, _) => l.it(m1, m2),
        (Kind::DI, 's') => l.di(m1, m2),
        (Kind::DI, 'l') => l.dil(m1, m2),
        (Kind::DI, _) => l.dit(m1, m2),
        (Kind::J, 's') => l.j(m1),
        (Kind::J, 'l') => l.jl(m1),
        (Kind::J, _) => l.jt(m1),
        (Kind::DJ, c) => match (base(f).starts_with("d2"), c) {
            (false, 's') => l.dj(m1),
            (false, 'l') => l.djl(m1),
            (false, _) => l.djt(m1),
            (true, 's') => l.d2j(m1),
            (true, 'l') => l.d2jl(m1),
            (true, _) => l.d2jt(m1),
        },
    })
}
fn blocks(fam: Fam, kinds: &[Kind]) -> Vec<&'static Fun> {
    FUNS.iter()
        .filter(|f| fam_of(f.name) == Some(fam) && classify(f).is_some_and(|(k, ..)| kinds.contains(&k)))
        .collect()
}
fn label(k: &Kin) -> &'static str {
    if k.ph != (0., 0.) {
        return if k.ph.0 == k.ph.1 && k.m1 == k.m2 { "complex-mass,equal" } else { "complex-mass" };
    }
    if k.om.1 == 0. {
        if k.m1 == k.m2 { "real-om,equal" } else if k.m1 == 0. || k.m2 == 0. { "real-om,massless" } else { "real-om" }
    } else if k.om.0 == 0. {
        "imaginary-om"
    } else if k.m1 == k.m2 {
        "complex-om,equal"
    } else if k.m1 == 0. || k.m2 == 0. {
        "complex-om,massless"
    } else {
        "complex-om"
    }
}
fn verdict(hit: bool, l: &'static str) -> Res {
    Ok(if hit { Hit(l) } else { Triv("tolerance-dominated") })
}
/// every function of the group against its reference, all argument types
fn against_refs(fs: &[&'static Fun], k: &Kin) -> Result<bool, String> {
    let mut hit = false;
    for f in fs {
        let Some(want) = block_ref(f, k, true) else { continue };
        let a = args(f, k);
        // when the library forms squared masses (m = 0 allowed), nothing is excluded a priori
        for v in variants(f, &a) {
            hit |= cmp(&format!("{} (mask {})", f.name, v.mask), call(v, &a), want, K)?;
        }
    }
    Ok(hit)
}

// ---------------------------------------------------------------- angular integrals
/// int_{-1}^{1} dx w(x)/(R + 2pq x), accurate quadrature; None when the pole is too close to the segment
fn angular(r: C, pq2: f64, w: &dyn Fn(f64) -> C) -> Option<(C, f64)> {
    let x0 = -r / pq2;
    let d = {
        let dx = (x0.re.abs() - 1.).max(0.);
        (dx * dx + x0.im * x0.im).sqrt()
    };
    if d < 1e-6 {
        return None;
    }
    let e = quad::graded(-1., 1., &[(x0.re.clamp(-1., 1.), d / 2.)]);
    let mut amp = 0.;
    let v = quad::panels(&e, 20, &mut |x| {
        let t = w(x) / (r + pq2 * x);
        amp = f64::max(amp, t.norm());
        t
    });
    Some((v, amp * 1e-13))
}
fn angular_block(l: &Loop, k: &Kin, comp: char, m1: C, m2: C) -> Option<(C, f64)> {
    let (om, p, q) = (l.om.v, l.p.v.re, k.q);
    let s = om * om + p * p;
    let i = C::new(0., 1.);
    let d = m2 * m2 - m1 * m1;
    let mut tot = C::new(0., 0.);
    let mut err = 0.;
    for (m, dd) in [(m1, d), (m2, -d)] {
        let en = (q * q + m * m).sqrt();
        let n = if m.im == 0. { C::new(1. / (k.beta * en.re).exp_m1(), 0.) } else { ((k.beta * en).exp() - 1.).inv() };
        for sg in [1., -1.] {
            let r = om * om + p * p + dd + 2. * i * om * en * sg;
            // relative uncertainty of r from its own cancellations
            let rr = (om.norm_sqr() + p * p + dd.norm() + m1.norm_sqr() + m2.norm_sqr() + 2. * om.norm() * en.norm()) * 4e-16;
            let w = |x: f64| match comp {
                's' => C::new(1., 0.),
                'l' => (i * en * sg * p - om * q * x).powu(2) / s,
                _ => C::new(q * q * (1. - x * x) / 2., 0.),
            };
            let (v, e) = if p == 0. {
                // average over angles at zero momentum: longitudinal weight q^2 x^2
                let a = match comp {
                    's' => 2.,
                    _ => 2. * q * q / 3.,
                };
                (a / r, (a / r).norm() * 1e-14)
            } else {
                angular(r, 2. * p * q, &w)?
            };
            let near = (r.norm() - 2. * p * q).abs().max(r.im.abs()).max(1e-300);
            let c = n * q * q / (8. * PI * PI * en);
            tot += c * v;
            err += c.norm() * (e + v.norm() * (1e-13 + 8. * rr / near));
        }
    }
    Some((tot, err))
}

fn c06() -> Subs {
    let mut v: Subs = vec![];
    for (nm, fam) in [("gen", Fam::Gen), ("zmat", Fam::ZMat), ("zmom", Fam::ZMom)] {
        v.push(Box::new(sub(&format!("c06-{nm}-closed"), (12000, 400000), kin, move |k| {
            let h = against_refs(&blocks(fam, &[Kind::Log, Kind::I, Kind::J]), k)?;
            verdict(h, label(k))
        })));
    }
    for (nm, fam) in [("gen", Fam::Gen), ("zmat", Fam::ZMat), ("zmom", Fam::ZMom)] {
        v.push(Box::new(sub(&format!("c06-{nm}-complex-mass"), (8000, 200000), kin_cm, move |k| {
            let h = against_refs(&blocks(fam, &[Kind::Log, Kind::I, Kind::J]), k)?;
            verdict(h, label(k))
        })));
    }
    v.push(Box::new(sub("c06-real-om", (8000, 200000), kin_real_om, |k| {
        let mut h = against_refs(&blocks(Fam::Gen, &[Kind::Log, Kind::I, Kind::J]), k)?;
        h |= against_refs(&blocks(Fam::ZMom, &[Kind::Log, Kind::I, Kind::J]), k)?;
        verdict(h, label(k))
    })));
    for (nm, g) in [("c06-angular", kin as fn() -> BS<Kin>), ("c06-angular-complex-mass", kin_cm)] {
    v.push(Box::new(sub(nm, (6000, 120000), g, |k| {
        let mut hit = false;
        for fam in [Fam::Gen, Fam::ZMom] {
            let l = Loop::new(fam, k.q, k.om(), k.p, k.beta);
            for f in blocks(fam, &[Kind::I]) {
                let (_, comp, (a, b)) = classify(f).unwrap();
                let (m1, m2) = (mval(k, a), mval(k, b));
                let Some((want, err)) = angular_block(&l, k, comp, m1, m2) else { continue };
                let e = block_ref(f, k, true).unwrap().e;
                if !e.is_finite() || !want.re.is_finite() || !want.im.is_finite() {
                    continue;
                }
                let a = args(f, k);
                for var in variants(f, &a) {
                    let got = call(var, &a);
                    let tol = K * e + 10. * err + 1e-290;
                    let d = (got - want).norm();
                    if d.is_nan() || d > tol {
                        return Err(format!("{} vs angular integral: got {got:e}, expected {want:e}, |diff| {d:e} > {tol:e}", f.name));
                    }
                    hit |= tol < 1e-3 * want.norm();
                }
            }
        }
        verdict(hit, label(k))
    })));
    }
    v
}

// ---------------------------------------------------------------- derivatives
/// int_0^inf dq f(q): graded panels around the scales of the problem
fn qint(scales: &[f64], qmax: f64, f: &mut dyn FnMut(f64) -> C) -> C {
    let mut c: Vec<(f64, f64)> = scales.iter().map(|&s| (s, s * 0.02)).collect();
    c.push((0., scales.iter().cloned().fold(f64::INFINITY, f64::min) * 0.05));
    quad::panels(&quad::graded(0., qmax, &c), 16, f)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DCase {
    om: (f64, f64),
    p: f64,
    m1: f64,
    m2: f64,
    beta: f64,
    which: u32,
}
fn dcase() -> BS<DCase> {
    (
        (logu(0.3, 4.), uni(-0.5, 0.5), sign()).prop_map(|(r, a, s)| (s * r * a.cos(), r * a.sin())),
        logu(0.2, 4.),
        logu(0.3, 3.),
        prop_oneof![2 => logu(0.3, 3.), 1 => Just(0.), 1 => Just(-1.)],
        logu(0.3, 4.),
        0..1000u32,
    )
        .prop_map(|(om, p, m1, m2, beta, which)| DCase { om, p, m1, m2: if m2 < 0. { m1 } else { m2 }, beta, which })
        .boxed()
}
/// contour (complex squared mass) derivatives of g(m1^2) at m1^2 = x
fn contour(x: f64, n: usize, rho: f64, g: &mut dyn FnMut(C) -> C) -> (C, C) {
    let (mut d1, mut d2) = (C::new(0., 0.), C::new(0., 0.));
    for k in 0..n {
        let t = C::from_polar(1., 2. * PI * (k as f64 + 0.5) / n as f64);
        let v = g(x + rho * t);
        d1 += v / t / (n as f64 * rho);
        d2 += v / (t * t) * 2. / (n as f64 * rho * rho);
    }
    (d1, d2)
}
fn check_diff(what: &str, got: C, want: C, scale: f64, rtol: f64) -> Result<(), String> {
    let d = (got - want).norm();
    if d.is_nan() || d > rtol * scale {
        return Err(format!("{what}: integral of the derivative integrand {got:e}, derivative of the integral {want:e}, |diff| {d:e} > {:e}", rtol * scale));
    }
    Ok(())
}
fn d_of_j(c: &DCase) -> Res {
    use qcd_sme::low_level::oneloop::thermal as th;
    let qmax = c.m1.max(1. / c.beta) * 4. + 45. / c.beta;
    let sc = [c.m1, 1. / c.beta];
    macro_rules! one {
        ($n:expr, $j:ident, $d:ident, $d2:ident) => {{
            let x = c.m1 * c.m1;
            let mut tot = 0f64;
            let (d1, d2) = contour(x, 48, 0.4 * x, &mut |m2: C| {
                let m = m2.sqrt();
                let v = qint(&sc, qmax, &mut |q| th::$j(q, m, c.beta));
                tot = tot.max(v.norm());
                v
            });
            let i1 = qint(&sc, qmax, &mut |q| C::new(th::$d(q, c.m1, c.beta), 0.));
            let i2 = qint(&sc, qmax, &mut |q| C::new(th::$d2(q, c.m1, c.beta), 0.));
            check_diff(concat!("d_", $n), i1, d1, d1.norm() + tot / x * 0.1, 1e-6)?;
            check_diff(concat!("d2_", $n), i2, d2, d2.norm() + tot / (x * x) * 0.1, 1e-6)?;
        }};
    }
    one!("j_m_i", j_m_i, d_j_m_i, d2_j_m_i);
    one!("j_m_l_i", j_m_l_i, d_j_m_l_i, d2_j_m_l_i);
    one!("j_m_t_i", j_m_t_i, d_j_m_t_i, d2_j_m_t_i);
    Ok(Hit("tadpoles"))
}
fn d_of_i(c: &DCase) -> Res {
    use qcd_sme::low_level::oneloop::thermal as th;
    let om = C::new(c.om.0, c.om.1);
    let qmax = c.m1.max(c.m2).max(1. / c.beta).max(c.p).max(om.norm()) * 4. + 45. / c.beta;
    let mut sc = vec![c.m1, 1. / c.beta, c.p, om.norm()];
    if c.m2 > 0. {
        sc.push(c.m2);
    }
    let d = c.m2 * c.m2 - c.m1 * c.m1;
    for x in [c.p * c.p + d, c.p * c.p - d] {
        sc.push((x.abs() / (2. * c.p)).max(0.05));
    }
    let x = c.m1 * c.m1;
    // stay inside the region where complex masses cross no threshold: small radius
    let rho = 0.05 * x.min(om.re.abs() * c.m1).min(om.re * om.re);
    let n = 8;
    macro_rules! one {
        ($n:expr, $f:expr, $d:expr) => {{
            let mut tot = 0f64;
            let (d1, _) = contour(x, n, rho, &mut |m2: C| {
                let m = m2.sqrt();
                let v = qint(&sc, qmax, &mut |q| $f(q, m));
                tot = tot.max(v.norm());
                v
            });
            let got = qint(&sc, qmax, &mut |q| $d(q));
            check_diff($n, got, d1, d1.norm() + 0.1 * tot / x, 2e-5)?;
        }};
    }
    let (p, b, m1, m2) = (c.p, c.beta, c.m1, c.m2);
    match c.which % 3 {
        0 => {
            one!("d_i_m_m_i", |q, m| th::i_m_m_i(q, om, p, m, m2, b), |q| th::d_i_m_m_i(q, om, p, m1, m2, b));
            one!("zero_momentum::d_i_m_m_i", |q, m| th::zero_momentum::i_m_m_i(q, om, m, m2, b), |q| th::zero_momentum::d_i_m_m_i(q, om, m1, m2, b));
        }
        1 => {
            one!("d_i_m_m_l_i", |q, m| th::i_m_m_l_i(q, om, p, m, m2, b), |q| th::d_i_m_m_l_i(q, om, p, m1, m2, b));
            one!("zero_momentum::d_i_m_m_l_i", |q, m| th::zero_momentum::i_m_m_l_i(q, om, m, m2, b), |q| th::zero_momentum::d_i_m_m_l_i(q, om, m1, m2, b));
        }
        _ => {
            one!("d_i_m_m_t_i", |q, m| th::i_m_m_t_i(q, om, p, m, m2, b), |q| th::d_i_m_m_t_i(q, om, p, m1, m2, b));
            one!("zero_momentum::d_i_m_m_t_i", |q, m| th::zero_momentum::i_m_m_t_i(q, om, m, m2, b), |q| th::zero_momentum::d_i_m_m_t_i(q, om, m1, m2, b));
        }
    }
    Ok(Hit(["scalar", "longitudinal", "transverse"][(c.which % 3) as usize]))
}
/// special-mass derivative functions: integrals against the general two-mass derivative integrals
fn d_special(c: &DCase) -> Res {
    let om = C::new(c.om.0, c.om.1);
    let qmax = c.m1.max(1. / c.beta).max(c.p).max(om.norm()) * 4. + 45. / c.beta;
    let mut sc = vec![c.m1, 1. / c.beta, c.p, om.norm()];
    for x in [c.p * c.p - c.m1 * c.m1, c.p * c.p + c.m1 * c.m1] {
        sc.push((x.abs() / (2. * c.p)).max(0.05));
    }
    let all: Vec<&Fun> = [Fam::Gen, Fam::ZMom].iter().flat_map(|&f| blocks(f, &[Kind::DI])).collect();
    let f = all[c.which as usize % all.len()];
    let (_, comp, (a, b)) = classify(f).unwrap();
    if (a, b) == ('0', '0') || (a, b) == ('1', '2') {
        return Ok(Triv("not a special massive function"));
    }
    let fam = fam_of(f.name).unwrap();
    let other = if b == '1' { c.m1 } else { 0. };
    let x = c.m1 * c.m1;
    let rho = 0.05 * x.min(om.re.abs() * c.m1).min(om.re * om.re);
    let suffix = match comp { 's' => "i_m_m_i", 'l' => "i_m_m_l_i", _ => "i_m_m_t_i" };
    let gname = format!("{TH}{}{suffix}", if fam == Fam::ZMom { "zero_momentum::" } else { "" });
    let g = fun(&gname);
    let gv = g.vars.last().unwrap();
    let mk = |q: f64, m1: C, m2: f64, f: &Fun| -> Vec<C> {
        f.args.iter().map(|&n| match n {
            "q" => C::new(q, 0.),
            "om" => om,
            "p" => C::new(c.p, 0.),
            "m" | "m1" => m1,
            "m2" => C::new(m2, 0.),
            _ => C::new(c.beta, 0.),
        }).collect()
    };
    let mut tot = 0f64;
    let (d1, _) = contour(x, 8, rho, &mut |m2: C| {
        let m = m2.sqrt();
        let v = qint(&sc, qmax, &mut |q| call(gv, &mk(q, m, other, g)));
        tot = tot.max(v.norm());
        v
    });
    let fv = f.vars.last().unwrap();
    let got = qint(&sc, qmax, &mut |q| call(fv, &mk(q, C::new(c.m1, 0.), 0., f)));
    check_diff(f.name, got, d1, d1.norm() + 0.1 * tot / x, 2e-5)?;
    Ok(Hit("special-mass"))
}

fn c07() -> Subs {
    let mut v: Subs = vec![];
    for (nm, fam) in [("gen", Fam::Gen), ("zmat", Fam::ZMat), ("zmom", Fam::ZMom)] {
        v.push(Box::new(sub(&format!("c07-{nm}-closed"), (15000, 400000), kin, move |k| {
            let h = against_refs(&blocks(fam, &[Kind::DI, Kind::DJ]), k)?;
            verdict(h, label(k))
        })));
    }
    for (nm, fam) in [("gen", Fam::Gen), ("zmat", Fam::ZMat), ("zmom", Fam::ZMom)] {
        v.push(Box::new(sub(&format!("c07-{nm}-complex-mass"), (8000, 200000), kin_cm, move |k| {
            let h = against_refs(&blocks(fam, &[Kind::DI, Kind::DJ]), k)?;
            verdict(h, label(k))
        })));
    }
    v.push(Box::new(sub("c07-real-om", (8000, 200000), kin_real_om, |k| {
        let mut h = against_refs(&blocks(Fam::Gen, &[Kind::DI, Kind::DJ]), k)?;
        h |= against_refs(&blocks(Fam::ZMom, &[Kind::DI, Kind::DJ]), k)?;
        verdict(h, label(k))
    })));
    v.push(Box::new(sub("c07-tadpole-derivative", (100, 2000), dcase, d_of_j)));
    v.push(Box::new(sub("c07-integral-derivative", (300, 6000), dcase, d_of_i)));
    v.push(Box::new(sub("c07-special-derivative", (400, 8000), dcase, d_special)));
    v
}

// ---------------------------------------------------------------- special masses
fn c08_case(fam: Fam, k: &Kin) -> Res {
    let all = blocks(fam, &[Kind::Log, Kind::I, Kind::DI]);
    let mut hit = false;
    for f in &all {
        let (kind, comp, (a, b)) = classify(f).unwrap();
        let g = all
            .iter()
            .find(|g| classify(g).unwrap() == (kind, comp, ('1', '2')))
            .unwrap();
        let (m1, m2) = (mval(k, a), mval(k, b));
        let kg = special(k, a, b);
        if (a, b) != ('1', '2') {
            // special function at m1 vs general function at (m1, m2 = special)
            let e = block_ref(g, &kg, true).unwrap();
            if !e.e.is_finite() {
                continue;
            }
            let ga = args(g, &kg);
            let fk = special(k, a, '2');
            let fa = args(f, &fk);
            let want = call(variants(g, &ga).next().unwrap(), &ga);
            for v in variants(f, &fa) {
                hit |= cmp(&format!("{} vs {} at masses ({m1},{m2})", f.name, g.name), call(v, &fa), E { v: want, e: e.e }, 2. * K)?;
            }
        } else if kind == Kind::I {
            let ks = Kin { m1: k.m2, m2: k.m1, ph: (k.ph.1, k.ph.0), ..k.clone() };
            let (e, e2) = (block_ref(f, k, true).unwrap(), block_ref(f, &ks, true).unwrap());
            let (x, y) = (args(f, k), args(f, &ks));
            if !e.e.is_finite() || !e2.e.is_finite() {
                continue;
            }
            for v in variants(f, &x) {
                hit |= cmp(&format!("{} under exchange of masses", f.name), call(v, &y), E { v: call(v, &x), e: e.e + e2.e }, K)?;
            }
        }
    }
    verdict(hit, label(k))
}
fn c08() -> Subs {
    let mut v: Subs = vec![];
    for (nm, fam) in [("gen", Fam::Gen), ("zmat", Fam::ZMat), ("zmom", Fam::ZMom)] {
        v.push(Box::new(sub(&format!("c08-{nm}"), (15000, 300000), kin, move |k| c08_case(fam, k))));
    }
    for (nm, fam) in [("gen", Fam::Gen), ("zmat", Fam::ZMat), ("zmom", Fam::ZMom)] {
        v.push(Box::new(sub(&format!("c08-{nm}-complex-mass"), (10000, 200000), kin_cm, move |k| c08_case(fam, k))));
    }
    v.push(Box::new(sub("c08-real-om", (8000, 150000), kin_real_om, |k| {
        c08_case(Fam::Gen, k)?;
        c08_case(Fam::ZMom, k)
    })));
    v
}

// ---------------------------------------------------------------- limits
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LimCase {
    k: Kin,
    mu: f64,
    u: f64,
}
fn limcase(real_om: bool) -> BS<LimCase> {
    let k = if real_om { kin_real_om() } else { kin() };
    (k, mu(), logu(1e-4, 0.08)).prop_map(|(k, mu, u)| LimCase { k, mu, u }).boxed()
}
fn pol_args(f: &Fun, k: &Kin, mu: f64) -> Vec<C> {
    let mut a = args(f, k);
    for (i, n) in f.args.iter().enumerate() {
        if *n == "mu" {
            a[i] = C::new(mu, 0.);
        }
    }
    a
}
fn pol_ref(f: &Fun, k: &Kin, mu: f64, nc: f64) -> Option<E> {
    let fam = fam_of(f.name)?;
    let b = base(f);
    if !b.ends_with("_landau_i") {
        return None;
    }
    let mut l = Loop::new(fam, k.q, k.om(), k.p, k.beta);
    l.force = true;
    Some(match b {
        "self_energy_thermal_part_landau_i" => l.ghost(k.cm1()),
        "polarization_glue_l_thermal_part_landau_i" => l.glue(k.cm1(), true),
        "polarization_glue_t_thermal_part_landau_i" => l.glue(k.cm1(), false),
        _ => {
            let en = refs::energy(k.q, k.cm1());
            let fd = if b.contains("zero_temp") { refs::step2(en, mu) } else { refs::fermi2(en, k.beta, mu) };
            l.quark(k.cm1(), fd, nc, b.contains("quark_l"))
        }
    })
}
fn all_integrands(fam: Fam) -> Vec<&'static Fun> {
    let mut v = blocks(fam, &[Kind::I, Kind::DI]);
    if fam == Fam::ZMat {
        v.extend(blocks(fam, &[Kind::Log]));
    }
    v.extend(FUNS.iter().filter(|f| fam_of(f.name) == Some(fam) && base(f).ends_with("_landau_i")));
    v
}
fn any_ref(f: &Fun, k: &Kin, mu: f64) -> E {
    if classify(f).is_some() {
        block_ref(f, k, true).unwrap()
    } else {
        pol_ref(f, k, mu, 3.).unwrap()
    }
}
/// general-family value at two small scales must converge quadratically to the limit function
fn c09_case(lim: Fam, c: &LimCase) -> Res {
    let k = &c.k;
    let mut hit = false;
    let mut kk = k.clone();
    if lim == Fam::ZMat {
        // real small frequency
        kk.om = (1., 0.);
    }
    if lim == Fam::ZMom && k.om.1 != 0. && k.om.0.abs() < 0.05 * k.om().norm() {
        return Ok(Triv("near-real-time-singularity"));
    }
    for f in all_integrands(lim) {
        let gname = f.name.replace("zero_matsubara::", "").replace("zero_momentum::", "");
        let g = fun(&gname);
        // convergence radius of the expansion in the small variable
        let (q, en1, en2) = (k.q, k.q.hypot(k.m1), k.q.hypot(k.m2));
        let mut rho = f64::INFINITY;
        let (a, b) = match classify(f) {
            Some((_, _, m)) => m,
            None => ('1', if base(f).contains("quark") { '1' } else { '0' }),
        };
        let mut pairs = vec![(mval(k, a).re, mval(k, b).re)];
        if classify(f).is_none() && !base(f).contains("quark") {
            pairs = vec![(k.m1, k.m1), (k.m1, 0.), (0., 0.)];
        }
        for (m1, m2) in pairs {
            let d = m2 * m2 - m1 * m1;
            for (m, d) in [(m1, d), (m2, -d)] {
                let en = q.hypot(m);
                if lim == Fam::ZMat {
                    for w in [2. * q * k.p, -2. * q * k.p] {
                        rho = rho.min((k.p * k.p + d + w).abs() / (2. * en + k.p));
                    }
                    rho = rho.min(k.p);
                } else {
                    let om = k.om();
                    for sg in [1., -1.] {
                        let r = om * om + d + 2. * C::new(0., sg) * om * en;
                        rho = rho.min(r.norm() / (2. * q)).min(r.norm().sqrt()).min(om.norm());
                    }
                }
            }
        }
        let _ = (en1, en2);
        let h = rho * c.u;
        if !(h > 1e-12) {
            continue;
        }
        let at = |h: f64| -> Option<(C, f64)> {
            let mut x = kk.clone();
            if lim == Fam::ZMat {
                x.om = (h, 0.);
            } else {
                x.p = h;
            }
            let e = any_ref(g, &x, c.mu);
            if !e.e.is_finite() {
                return None;
            }
            let a = pol_args(g, &x, c.mu);
            let v = call(variants(g, &a).next()?, &a);
            Some((if lim == Fam::ZMat { C::new(v.re, 0.) } else { v }, e.e))
        };
        let (Some((v1, e1)), Some((v2, e2)), Some((v3, e3))) = (at(h), at(h / 2.), at(h / 4.)) else { continue };
        let e0 = any_ref(f, k, c.mu);
        if !e0.e.is_finite() {
            continue;
        }
        let a = pol_args(f, k, c.mu);
        let Some(var) = variants(f, &a).next() else { continue };
        let v0 = call(var, &a);
        let dv = (v2 - v3).norm().max((v1 - v2).norm() / 2.);
        let tol = 2.5 * dv + 2. * K * (e0.e + e1 + e2 + e3) + 1e-290;
        let d = (v3 - v0).norm();
        if d.is_nan() || d > tol {
            return Err(format!(
                "{} = {v0:e} is not the limit of {gname}: at {h:e} and its halves {v1:e}, {v2:e}, {v3:e} (tolerance {tol:e})",
                f.name
            ));
        }
        hit |= tol < 1e-2 * v0.norm();
    }
    verdict(hit, label(k))
}
fn c09_points() -> Subs {
    vec![
        Box::new(sub("c09-zero-matsubara", (15000, 200000), || limcase(true), |c| c09_case(Fam::ZMat, c))),
        Box::new(sub("c09-zero-momentum", (15000, 200000), || limcase(false), |c| c09_case(Fam::ZMom, c))),
        Box::new(sub("c09-zero-momentum-real", (8000, 100000), || limcase(true), |c| c09_case(Fam::ZMom, c))),
    ]
}

// ---------------------------------------------------------------- polarizations
fn pol_funs(fam: Fam, quark: bool) -> Vec<&'static Fun> {
    FUNS.iter()
        .filter(|f| fam_of(f.name) == Some(fam) && base(f).ends_with("_landau_i") && base(f).contains("quark") == quark)
        .collect()
}
fn pol_case(fs: &[&'static Fun], k: &Kin, mu: f64, nc: f64) -> Result<bool, String> {
    let mut hit = false;
    for f in fs {
        let want = pol_ref(f, k, mu, nc).unwrap();
        let a = pol_args(f, k, mu);
        for v in variants(f, &a) {
            hit |= cmp(&format!("{} (mask {})", f.name, v.mask), call(v, &a), want, K)?;
        }
    }
    Ok(hit)
}
fn kpos() -> BS<Kin> {
    kin().prop_map(|k| if k.m1 == 0. { Kin { m1: k.m2.max(0.1 * k.p), ..k } } else { k }).boxed()
}
fn kpos_real() -> BS<Kin> {
    kin_real_om().prop_map(|k| if k.m1 == 0. { Kin { m1: k.m2.max(0.1 * k.p), ..k } } else { k }).boxed()
}
fn c10() -> Subs {
    let mut v: Subs = vec![];
    for (nm, fam) in [("gen", Fam::Gen), ("zmat", Fam::ZMat), ("zmom", Fam::ZMom)] {
        v.push(Box::new(sub(&format!("c10-{nm}"), (20000, 400000), kpos, move |k| {
            verdict(pol_case(&pol_funs(fam, false), k, 0., 3.)?, label(k))
        })));
        v.push(Box::new(sub(&format!("c10-{nm}-real"), (10000, 200000), kpos_real, move |k| {
            verdict(pol_case(&pol_funs(fam, false), k, 0., 3.)?, label(k))
        })));
    }
    v
}
fn mulabel(k: &Kin, mu: f64) -> &'static str {
    let en = k.q.hypot(k.m1);
    if mu == 0. {
        "mu=0"
    } else if mu.abs() > en {
        if mu > 0. { "mu>E" } else { "mu<-E" }
    } else {
        "|mu|<E"
    }
}
/// direct angular integral of the quark bubble (on-shell loop momentum, spinor trace)
fn bubble(k: &Kin, fam: Fam, occ: f64, nc: f64, longitudinal: bool) -> Option<(C, f64)> {
    let om = k.om();
    let p = if fam == Fam::ZMom { 0. } else { k.p };
    let (q, i) = (k.q, C::new(0., 1.));
    let en = q.hypot(k.m1);
    let s = om * om + p * p;
    let mut t = C::new(0., 0.);
    let mut err = 0.;
    for sg in [1., -1.] {
        let r = s + 2. * sg * i * om * en;
        let w = |x: f64| {
            let kq = sg * i * om * en + p * q * x;
            let ww = if longitudinal { 2. * (i * en * sg * p - om * q * x).powu(2) / s } else { C::new(q * q * (1. - x * x), 0.) };
            ww - kq
        };
        let (v, e) = if p == 0. {
            let v = (4. * q * q / 3. - 2. * sg * i * om * en) / r;
            (v, v.norm() * 1e-14)
        } else {
            angular(r, 2. * p * q, &w)?
        };
        let rr = (om.norm_sqr() + p * p + 2. * om.norm() * en) * 4e-16;
        let near = (r.norm() - 2. * p * q).abs().max(r.im.abs()).max(1e-300);
        t += v;
        err += e + v.norm() * (1e-13 + 8. * rr / near);
    }
    let c = occ * q * q / (4. * PI * PI * nc * en);
    Some((c * t, c.abs() * err))
}
fn c11() -> Subs {
    let mut v: Subs = vec![];
    let m = || prop_oneof![3 => mu(), 1 => sgnd(logu(0.5, 3.))].boxed();
    for (nm, fam) in [("gen", Fam::Gen), ("zmat", Fam::ZMat), ("zmom", Fam::ZMom)] {
        v.push(Box::new(sub(&format!("c11-{nm}"), (20000, 400000), move || (kin(), m()), move |(k, mu)| {
            verdict(pol_case(&pol_funs(fam, true), k, *mu, 3.)?, mulabel(k, *mu))
        })));
        v.push(Box::new(sub(&format!("c11-{nm}-real"), (10000, 200000), move || (kin_real_om(), m()), move |(k, mu)| {
            verdict(pol_case(&pol_funs(fam, true), k, *mu, 3.)?, mulabel(k, *mu))
        })));
        v.push(Box::new(
            sub(&format!("c11-{nm}-nc"), (4000, 40000), move || (kin_real_om(), m(), 1..12u32), move |(k, mu, nc)| {
                let _r = crate::vac::Reset;
                consts::set_number_of_colors(*nc);
                verdict(pol_case(&pol_funs(fam, true), k, *mu, *nc as f64)?, mulabel(k, *mu))
            })
            .exclusive(),
        ));
    }
    v.push(Box::new(sub("c11-bubble", (8000, 150000), move || (kin(), m()), |(k, mu)| {
        let mut hit = false;
        let en = k.q.hypot(k.m1);
        for fam in [Fam::Gen, Fam::ZMom] {
            for f in pol_funs(fam, true) {
                let zt = base(f).contains("zero_temp");
                let occ = if zt { refs::step2(refs::energy(k.q, k.cm1()), *mu) } else { refs::fermi2(er(en), k.beta, *mu) };
                if zt && (en - mu.abs()).abs() < 1e-12 * en {
                    continue;
                }
                let Some((want, err)) = bubble(k, fam, occ.v.re, 3., base(f).contains("quark_l")) else { continue };
                let e = pol_ref(f, k, *mu, 3.).unwrap().e;
                if !e.is_finite() || !want.re.is_finite() || !want.im.is_finite() {
                    continue;
                }
                let a = pol_args(f, k, *mu);
                let Some(var) = variants(f, &a).next() else { continue };
                let got = call(var, &a);
                let tol = K * e + 20. * err + 1e-290;
                let d = (got - want).norm();
                if d.is_nan() || d > tol {
                    return Err(format!("{} vs direct bubble: got {got:e}, expected {want:e}, |diff| {d:e} > {tol:e}", f.name));
                }
                hit |= tol < 1e-3 * want.norm();
            }
        }
        verdict(hit, mulabel(k, *mu))
    })));
    v
}

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C06", rule: "a case counts when at least one integrand was compared with a tolerance below 1e-3 of its value", assumptions: &["masses, momenta, frequencies in 1e-3..1e3 (scaled by 1e-3..30); frequencies off the real-time axis except as sampled"], subs: c06, init: None },
        Property { id: "C07", rule: "a case counts when at least one derivative integrand was compared with a tolerance below 1e-3 of its value, or an integral derivative was compared to 1e-5", assumptions: &["zero-Matsubara derivatives are decided pointwise against the closed form, which C09 ties to the general family"], subs: c07, init: None },
        Property { id: "C08", rule: "a case counts when at least one pair was compared with a tolerance below 1e-3 of its value", assumptions: &[], subs: c08, init: None },
        Property { id: "C10", rule: "a case counts when at least one integrand was compared with a tolerance below 1e-3 of its value", assumptions: &["positive gluon mass"], subs: c10, init: None },
        Property { id: "C11", rule: "a case counts when at least one integrand was compared with a tolerance below 1e-3 of its value", assumptions: &["nc in 1..11"], subs: c11, init: None },
    ]
}
pub fn c09_subs() -> Subs {
    c09_points()
}
