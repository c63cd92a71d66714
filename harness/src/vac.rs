//! C01 (vacuum one-loop functions) and C03 (vacuum dressings and propagators).
use crate::ea::*;
use crate::fw::*;
use crate::gens::*;
use crate::quad;
use crate::refs;
use proptest::prelude::*;
use qcd_sme::consts;
use qcd_sme::low_level::oneloop::{ghost, gluon};
use qcd_sme::qcd::FieldConfig;
use qcd_sme::{qcd, ym};

const K: f64 = 40.;

fn close(what: &str, got: C, want: C, rtol: f64, atol: f64) -> Result<(), String> {
    let d = (got - want).norm();
    let t = rtol * want.norm() + atol;
    if !want.re.is_finite() || !want.im.is_finite() {
        return Ok(());
    }
    if d.is_nan() || d > t {
        return Err(format!("{what}: got {got:e}, expected {want:e}, |diff| {d:e} > {t:e}"));
    }
    Ok(())
}

macro_rules! vac_all {
    ($z:expr, $s:expr, $conv:expr) => {{
        let (z, s) = ($z, $s);
        let cv = $conv;
        let l = z.ln();
        let l1 = (z + 1.).ln();
        let mut hit = false;
        for (n, got, want) in [
            ("ghost::g", cv(ghost::g(z)), refs::g(s)),
            ("ghost::g_sep", cv(ghost::g_sep(z, l, l1)), refs::g(s)),
            ("ghost::g_xi", cv(ghost::g_xi(z)), refs::g_xi(s)),
            ("ghost::g_xi_sep", cv(ghost::g_xi_sep(l)), refs::g_xi(s)),
            ("gluon::f", cv(gluon::f(z)), refs::f(s)),
            ("gluon::f_sep", cv(gluon::f_sep(z, l, l1)), refs::f(s)),
            ("gluon::f_xi", cv(gluon::f_xi(z)), refs::f_xi(s)),
            ("gluon::f_xi_sep", cv(gluon::f_xi_sep(z, l, l1)), refs::f_xi(s)),
            ("gluon::f_q", cv(gluon::f_q(z)), refs::f_q(s)),
            ("gluon::f_q_crossed", cv(gluon::f_q_crossed(z)), refs::f_q_crossed(s)),
        ] {
            hit |= cmp(n, got, want, K)?;
        }
        hit
    }};
}

fn verdict(hit: bool, l: &'static str) -> Res {
    Ok(if hit { Hit(l) } else { Triv("tolerance-dominated") })
}

fn region(s: f64) -> &'static str {
    if s < 1e-2 {
        "small"
    } else if s < 1. {
        "below-1"
    } else if s < 10. {
        "1..10"
    } else {
        "large"
    }
}

fn feynman(s: C) -> (C, C) {
    // f_q and f_q + 2 s f_q' from the Feynman-parameter representation
    let near = -1. / s; // zero of 1 + s y at y = x(1-x)
    let edges: Vec<f64> = {
        // geometric grading toward 0, symmetric around 1/2, and around the near-singular point
        let mut c = vec![(0., 1e-9)];
        let disc = (C::new(1., 0.) - 4. * near).sqrt();
        for x in [(1. - disc) / 2., (1. + disc) / 2.] {
            if x.re > 0. && x.re < 0.5 {
                c.push((x.re, x.im.abs() / 2. + 1e-13));
            }
        }
        c.push((0.5, 1e-9));
        quad::graded(0., 0.5, &c)
    };
    let one = C::new(1., 0.);
    let a = quad::panels(&edges, 14, &mut |x| {
        let y = x * (1. - x);
        let z = s * y;
        let l = if z.norm() < 1e-3 { z - z * z / 2. + z * z * z / 3. - z * z * z * z / 4. + z * z * z * z * z / 5. } else { (one + z).ln() };
        l * y
    }) * 2.;
    let b = quad::panels(&edges, 14, &mut |x| {
        let y = x * (1. - x);
        C::new(y * y, 0.) / (one + s * y)
    }) * 2.;
    let fq = -a * 4. / 3.;
    (fq, fq - s * b * 8. / 3.)
}

fn check_feynman(z: C) -> Res {
    let (a, b) = feynman(z);
    let mut hit = false;
    let s = ex(z);
    for (n, got, want, e) in [
        ("f_q vs Feynman integral", gluon::f_q(z), a, refs::f_q(s).e),
        ("f_q_crossed vs Feynman integral", gluon::f_q_crossed(z), b, refs::f_q_crossed(s).e),
    ] {
        if e.is_finite() {
            close(n, got, want, 1e-10, K * e)?;
            hit |= K * e < 1e-3 * want.norm();
        }
    }
    verdict(hit, region(z.norm()))
}

fn c01() -> Subs {
    vec![
        Box::new(sub("c01-real", (30000, 600000), pos_wide, |&s| {
            let h = vac_all!(s, er(s), |x: f64| C::new(x, 0.));
            verdict(h, region(s))
        })),
        Box::new(sub("c01-complex", (60000, 1000000), || cplane(pos_wide()), |&z| {
            let z = c(z);
            let h = vac_all!(z, ex(z), |x: C| x);
            verdict(h, if z.im == 0. { "real-axis" } else if z.re < 0. { "left-half-plane" } else { "right-half-plane" })
        })),
        Box::new(sub("c01-feynman", (4000, 60000), || cplane(pos()), |&z| check_feynman(c(z)))),
        Box::new(sub("c01-feynman-real", (4000, 60000), pos, |&s| {
            let (a, b) = feynman(C::new(s, 0.));
            let e = (refs::f_q(er(s)).e, refs::f_q_crossed(er(s)).e);
            close("real f_q vs Feynman integral", C::new(gluon::f_q(s), 0.), a, 1e-10, K * e.0)?;
            close("real f_q_crossed vs Feynman integral", C::new(gluon::f_q_crossed(s), 0.), b, 1e-10, K * e.1)?;
            verdict(K * e.0 < 1e-3 * a.norm(), region(s))
        })),
        // analytic continuation across the imaginary axis and around the cut plane: mean value over a circle
        Box::new(sub("c01-analytic", (4000, 50000), || (cplane(logu(0.05, 30.)), uni(0.05, 0.6)), |&(z, r)| {
            let z = c(z);
            // distance to the cut (-inf,0]
            let d = if z.re > 0. { z.norm() } else { z.im.abs() };
            let r = r * d;
            let n = 64;
            let mut hit = false;
            for (name, f, rf) in [
                ("ghost::g", ghost::g::<C> as fn(C) -> C, refs::g as fn(E) -> E),
                ("gluon::f", gluon::f::<C>, refs::f),
                ("gluon::f_xi", gluon::f_xi::<C>, refs::f_xi),
                ("gluon::f_q", gluon::f_q::<C>, refs::f_q),
                ("gluon::f_q_crossed", gluon::f_q_crossed::<C>, refs::f_q_crossed),
            ] {
                let mut m = C::new(0., 0.);
                let (mut e, mut mx) = (0f64, 0f64);
                for k in 0..n {
                    let w = z + C::from_polar(r, 2. * std::f64::consts::PI * k as f64 / n as f64);
                    m += f(w) / n as f64;
                    e = e.max(rf(ex(w)).e);
                    mx = mx.max(f(w).norm());
                }
                if !e.is_finite() {
                    continue;
                }
                close(&format!("{name}: mean over circle radius {r:e} vs centre"), f(z), m, 0., K * e + 1e-11 * mx)?;
                hit = true;
            }
            verdict(hit, if z.re < 0. { "left" } else { "right" })
        })),
    ]
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Dr {
    s: (f64, f64),
    mq: f64,
    c0: f64,
    xi: f64,
    nc: u32,
    nf: u32,
    m: f64,
    quarks: Vec<(u32, f64)>,
}
fn dr() -> BS<Dr> {
    let flavors = prop::collection::vec((0..4u32, pos()), 0..4);
    (cplane(pos()), pos(), rc(), rc(), 1..8u32, 0..9u32, pos(), flavors)
        .prop_map(|(s, mq, c0, xi, nc, nf, m, quarks)| Dr { s, mq, c0, xi, nc, nf, m, quarks })
        .boxed()
}

/// (inverse dressing, dressing, propagator) must satisfy the algebra for the reference inverse `want`
fn triple(what: &str, z: C, inv: C, d: C, p: C, want: E, hit: &mut bool) -> Result<(), String> {
    *hit |= cmp(&format!("{what} inverse dressing"), inv, want, K)?;
    if want.e * K < 0.1 * want.mag() {
        let one = C::new(1., 0.);
        close(&format!("{what} dressing*inverse"), d * inv, one, 1e-12, 0.)?;
        close(&format!("{what} propagator*s/dressing"), p * z / d, one, 1e-12, 0.)?;
    }
    Ok(())
}

macro_rules! dressings {
    ($a:expr, $z:expr, $mk:expr, $cv:expr, $ratio:expr) => {{
        let (a, z, cv): (&Dr, _, _) = ($a, $z, $cv);
        let s: E = ($mk)(z);
        let (c0, xi, mq) = (a.c0, a.xi, a.mq);
        let zc = cv(z);
        let mut hit = false;
        let gl = refs::g(s) + c0;
        let gx = gl + xi * refs::g_xi(s);
        let fl = refs::f(s) + c0;
        let fx = fl + xi * refs::f_xi(s);
        let sq = s / (er(mq).sq());
        let r = $ratio;
        let q = r * refs::f_q(sq);
        let qc = r * refs::f_q_crossed(sq);
        triple("ym::ghost landau", zc, cv(ym::ghost::dressing_inv_landau(z, c0)), cv(ym::ghost::dressing_landau(z, c0)), cv(ym::ghost::propagator_landau(z, c0)), gl, &mut hit)?;
        triple("ym::ghost", zc, cv(ym::ghost::dressing_inv(z, c0, xi)), cv(ym::ghost::dressing(z, c0, xi)), cv(ym::ghost::propagator(z, c0, xi)), gx, &mut hit)?;
        triple("qcd::ghost landau", zc, cv(qcd::ghost::dressing_inv_landau(z, c0)), cv(qcd::ghost::dressing_landau(z, c0)), cv(qcd::ghost::propagator_landau(z, c0)), gl, &mut hit)?;
        triple("qcd::ghost", zc, cv(qcd::ghost::dressing_inv(z, c0, xi)), cv(qcd::ghost::dressing(z, c0, xi)), cv(qcd::ghost::propagator(z, c0, xi)), gx, &mut hit)?;
        triple("ym::gluon landau", zc, cv(ym::gluon::dressing_inv_landau(z, c0)), cv(ym::gluon::dressing_landau(z, c0)), cv(ym::gluon::propagator_landau(z, c0)), fl, &mut hit)?;
        triple("ym::gluon", zc, cv(ym::gluon::dressing_inv(z, c0, xi)), cv(ym::gluon::dressing(z, c0, xi)), cv(ym::gluon::propagator(z, c0, xi)), fx, &mut hit)?;
        triple("qcd::gluon landau", zc, cv(qcd::gluon::dressing_inv_landau(z, mq, c0)), cv(qcd::gluon::dressing_landau(z, mq, c0)), cv(qcd::gluon::propagator_landau(z, mq, c0)), fl + q, &mut hit)?;
        triple("qcd::gluon", zc, cv(qcd::gluon::dressing_inv(z, mq, c0, xi)), cv(qcd::gluon::dressing(z, mq, c0, xi)), cv(qcd::gluon::propagator(z, mq, c0, xi)), fx + q, &mut hit)?;
        triple("qcd::gluon crossed landau", zc, cv(qcd::gluon::dressing_crossed_inv_landau(z, mq, c0)), cv(qcd::gluon::dressing_crossed_landau(z, mq, c0)), cv(qcd::gluon::propagator_crossed_landau(z, mq, c0)), fl + qc, &mut hit)?;
        triple("qcd::gluon crossed", zc, cv(qcd::gluon::dressing_crossed_inv(z, mq, c0, xi)), cv(qcd::gluon::dressing_crossed(z, mq, c0, xi)), cv(qcd::gluon::propagator_crossed(z, mq, c0, xi)), fx + qc, &mut hit)?;
        // the same for a list of flavors (masses in the units of the gluon mass given to the configuration)
        let cfg = FieldConfig::new(a.nc, a.m, a.quarks.iter().map(|&(n, x)| (n, x * a.m)).collect());
        let (mut q, mut qc) = (er(0.), er(0.));
        for &(n, x) in &a.quarks {
            let (w, sq) = (n as f64 / a.nc as f64, s / (er(x).sq()));
            q = q + w * refs::f_q(sq);
            qc = qc + w * refs::f_q_crossed(sq);
        }
        use qcd::gluon as qg;
        triple("config landau", zc, cv(qg::dressing_inv_landau_w_field_config(z, c0, &cfg)), cv(qg::dressing_landau_w_field_config(z, c0, &cfg)), cv(qg::propagator_landau_w_field_config(z, c0, &cfg)), fl + q, &mut hit)?;
        triple("config", zc, cv(qg::dressing_inv_w_field_config(z, c0, xi, &cfg)), cv(qg::dressing_w_field_config(z, c0, xi, &cfg)), cv(qg::propagator_w_field_config(z, c0, xi, &cfg)), fx + q, &mut hit)?;
        triple("config crossed landau", zc, cv(qg::dressing_crossed_inv_landau_w_field_config(z, c0, &cfg)), cv(qg::dressing_crossed_landau_w_field_config(z, c0, &cfg)), cv(qg::propagator_crossed_landau_w_field_config(z, c0, &cfg)), fl + qc, &mut hit)?;
        triple("config crossed", zc, cv(qg::dressing_crossed_inv_w_field_config(z, c0, xi, &cfg)), cv(qg::dressing_crossed_w_field_config(z, c0, xi, &cfg)), cv(qg::propagator_crossed_w_field_config(z, c0, xi, &cfg)), fx + qc, &mut hit)?;
        // low-level variants with precomputed logarithms
        let (l, l1) = (z.ln(), (z + 1.).ln());
        hit |= cmp("ghost::dressing_inv_landau_sep", cv(ghost::dressing_inv_landau_sep(z, l, l1, c0)), gl, K)?;
        hit |= cmp("ghost::dressing_inv_sep", cv(ghost::dressing_inv_sep(z, l, l1, c0, xi)), gx, K)?;
        hit |= cmp("gluon::ym_dressing_inv_landau_sep", cv(gluon::ym_dressing_inv_landau_sep(z, l, l1, c0)), fl, K)?;
        hit |= cmp("gluon::ym_dressing_inv_sep", cv(gluon::ym_dressing_inv_sep(z, l, l1, c0, xi)), fx, K)?;
        hit
    }};
}

/// Depth to which the library's quadratures subdivide by default. Where rounding noise exceeds their absolute tolerance they
/// subdivide locally as far as they may: 2^50 is forever, 2^24 is a fraction of a second and still resolves the regulator.
static DEPTH: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(50);
/// Checks which state what the default is keep it, the others use a smaller one.
pub fn limit_depth(pid: &str) {
    if !["C05", "C14", "C18", "C19", "C21", "C23", "C29", "C30", "C31"].contains(&pid) {
        DEPTH.store(24, std::sync::atomic::Ordering::SeqCst);
        consts::set_default_max_iter_integral(24);
    }
}
pub struct Reset;
impl Drop for Reset {
    fn drop(&mut self) {
        consts::set_number_of_colors(3);
        consts::set_number_of_fermions(1);
        consts::set_default_quark_mass(0.5);
        consts::set_default_tol_integral(1e-10);
        consts::set_default_max_iter_integral(DEPTH.load(std::sync::atomic::Ordering::SeqCst));
        consts::set_matsubara_reg(1e-5);
    }
}

fn c03() -> Subs {
    vec![
        Box::new(sub("c03-defaults", (20000, 300000), dr, |a| {
            let z = c(a.s);
            let mut h = dressings!(a, z, ex, |x: C| x, 1. / 3.);
            let zr = z.norm();
            h |= dressings!(a, zr, er, |x: f64| C::new(x, 0.), 1. / 3.);
            verdict(h, region(zr))
        })),
        Box::new(
            sub("c03-globals", (30000, 300000), || (dr(), any::<bool>()), |(a, order)| {
                let _r = Reset;
                if *order {
                    consts::set_number_of_colors(a.nc);
                    consts::set_number_of_fermions(a.nf);
                } else {
                    consts::set_number_of_fermions(a.nf);
                    consts::set_number_of_colors(a.nc);
                }
                let r = a.nf as f64 / a.nc as f64;
                let z = c(a.s);
                let mut h = dressings!(a, z, ex, |x: C| x, r);
                h |= dressings!(a, z.norm(), er, |x: f64| C::new(x, 0.), r);
                verdict(h, if a.nf == 0 { "no-quarks" } else { "quarks" })
            })
            .exclusive(),
        ),
    ]
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "a case counts when at least one compared function had a tolerance below 1e-3 of its value (rounding did not dominate)",
            assumptions: &["arguments within 1e-6..1e6 in modulus, off the negative real axis by at least 1e-6 rad"],
            subs: c01, init: None,
        },
        Property {
            id: "C03",
            rule: "a case counts when at least one inverse dressing was compared with a tolerance below 1e-3 of its value",
            assumptions: &["nc in 1..7, nf in 0..8"],
            subs: c03, init: None,
        },
    ]
}
