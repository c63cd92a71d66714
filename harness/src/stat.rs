//! C20: statistical distributions and kinematics.
use crate::ea::*;
use crate::fw::*;
use crate::gens::*;
use proptest::prelude::*;
use qcd_sme::common as k;
use qcd_sme::common::thermal as th;
use qcd_sme::low_level::common as low;
use serde::{Deserialize, Serialize};

const K: f64 = 30.;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct S {
    en: (f64, f64),
    mu: (f64, f64),
    beta: f64,
    x: f64,
    p: f64,
}
fn s() -> BS<S> {
    let z = |r: BS<f64>| prop_oneof![3 => sgnd(r.clone()).prop_map(|x| (x, 0.)), 3 => cplane(r)].boxed();
    let m = || prop_oneof![5 => pos(), 1 => Just(0.)].boxed();
    (z(m()), z(m()), beta(), sgnd(pos_wide()), real()).prop_map(|(en, mu, beta, x, p)| S { en, mu, beta, x, p }).boxed()
}
/// The same in other units, and with the temperature raised.
fn s_wide() -> BS<S> {
    let j = prop_oneof![2 => Just(1.), 1 => logu(1e-9, 1.), 1 => Just(0.)];
    (s(), logu(1e-9, 1e9), j)
        .prop_map(|(a, k, j)| S { en: (a.en.0 * k, a.en.1 * k), mu: (a.mu.0 * k, a.mu.1 * k), beta: a.beta * j / k, x: a.x * k, p: a.p * k })
        .boxed()
}
/// exp(x) + sign, inverted; zero once the exponential is not representable
fn occ(x: E, sign: f64) -> Option<E> {
    if x.v.re > 690. {
        return None;
    }
    if x.v.re > 100. {
        // the square of the exponential overflows in complex arithmetic: anything below 1e-140 is zero
        let w = (-x).exp();
        return Some(E { e: w.e + 1e-140, ..w });
    }
    Some((x.exp() + sign).inv())
}
fn check(what: &str, got: C, x: E, sign: f64) -> Result<bool, String> {
    match occ(x, sign) {
        Some(w) => cmp(what, got, w, K),
        None => {
            if got.norm() < 1e-290 {
                Ok(true)
            } else {
                Err(format!("{what} = {got:e} although the Boltzmann exponent is {:e}", x.v))
            }
        }
    }
}
fn rc(x: f64) -> C {
    C::new(x, 0.)
}
fn c20_formulas(a: &S) -> Res {
    let (en, mu, b) = (c(a.en), c(a.mu), a.beta);
    let mut h = false;
    // complex energy, complex or real chemical potential; real energy and real chemical potential
    let x = (ex(en) - ex(mu)) * b;
    let xm = (ex(en) + ex(mu)) * b;
    let x0 = ex(en) * b;
    h |= check("fermi_distribution(C, C)", th::fermi_distribution(en, b, mu), x, 1.)?;
    h |= check("bose_distribution(C, C)", th::bose_distribution(en, b, mu), x, -1.)?;
    h |= check("fermi_distribution_zero_chempot(C)", th::fermi_distribution_zero_chempot(en, b), x0, 1.)?;
    h |= check("bose_distribution_zero_chempot(C)", th::bose_distribution_zero_chempot(en, b), x0, -1.)?;
    if let (Some(p), Some(q)) = (occ(x, 1.), occ(xm, 1.)) {
        h |= cmp("fermi_distribution_double(C, C)", th::fermi_distribution_double(en, b, mu), p + q, K)?;
    }
    if x.v.re < 690. {
        h |= cmp("statistic_distribution_exponential(C, C)", low::statistic_distribution_exponential(en, b, mu), x.exp(), K)?;
    }
    if x0.v.re < 690. {
        h |= cmp("statistic_distribution_exponential_zero_chempot(C)", low::statistic_distribution_exponential_zero_chempot(en, b), x0.exp(), K)?;
    }
    let (e, m) = (a.en.0, a.mu.0);
    let x = (ex(en) - er(m)) * b;
    h |= check("fermi_distribution(C, R)", th::fermi_distribution(en, b, m), x, 1.)?;
    h |= check("bose_distribution(C, R)", th::bose_distribution(en, b, m), x, -1.)?;
    let x = (er(e) - er(m)) * b;
    let xm = (er(e) + er(m)) * b;
    let x0 = er(e) * b;
    h |= check("fermi_distribution", rc(th::fermi_distribution(e, b, m)), x, 1.)?;
    h |= check("fermi_distribution_zero_chempot", rc(th::fermi_distribution_zero_chempot(e, b)), x0, 1.)?;
    if x.v.re != 0. {
        h |= check("bose_distribution", rc(th::bose_distribution(e, b, m)), x, -1.)?;
    }
    if e != 0. {
        h |= check("bose_distribution_zero_chempot", rc(th::bose_distribution_zero_chempot(e, b)), x0, -1.)?;
    }
    if x.v.re < 690. {
        h |= cmp("statistic_distribution_exponential", rc(low::statistic_distribution_exponential(e, b, m)), x.exp(), K)?;
    }
    if x0.v.re < 690. {
        h |= cmp("statistic_distribution_exponential_zero_chempot", rc(low::statistic_distribution_exponential_zero_chempot(e, b)), x0.exp(), K)?;
    }
    let w = occ(x, 1.).unwrap_or(er(0.)) + occ(xm, 1.).unwrap_or(er(0.));
    h |= cmp("fermi_distribution_double", rc(th::fermi_distribution_double(e, b, m)), w, K)?;
    Ok(if h { Hit("resolved") } else { Triv("rounding dominated") })
}
/// Infinite temperature: every Fermi state is half full.
fn c20_hot(a: &S) -> Res {
    let (en, mu) = (c(a.en), c(a.mu));
    let v = [
        rc(th::fermi_distribution(en.re, 0., mu.re)),
        th::fermi_distribution(en, 0., mu),
        th::fermi_distribution(en, 0., mu.re),
        rc(th::fermi_distribution_zero_chempot(en.re, 0.)),
        th::fermi_distribution_zero_chempot(en, 0.),
        rc(0.5 * th::fermi_distribution_double(en.re, 0., mu.re)),
        th::fermi_distribution_double(en, 0., mu) * 0.5,
        rc(0.5 * low::statistic_distribution_exponential(en.re, 0., mu.re)),
        low::statistic_distribution_exponential(en, 0., mu) * 0.5,
        rc(0.5 * low::statistic_distribution_exponential_zero_chempot(en.re, 0.)),
        low::statistic_distribution_exponential_zero_chempot(en, 0.) * 0.5,
    ];
    if let Some(i) = v.iter().position(|z| (*z - 0.5).norm().is_nan() || (*z - 0.5).norm() > 1e-14) {
        return Err(format!("distribution {i} at infinite temperature, en = {en}, mu = {mu}: {v:?}"));
    }
    Ok(Hit("infinite temperature"))
}
fn range(what: &str, v: f64, lo: f64, hi: f64) -> Result<(), String> {
    if v.is_nan() || v < lo || v > hi {
        return Err(format!("{what} = {v:e} is not between {lo:e} and {hi:e}"));
    }
    Ok(())
}
fn near(what: &str, got: f64, want: f64, tol: f64) -> Result<(), String> {
    let d = (got - want).abs();
    if d.is_nan() || d > tol {
        return Err(format!("{what}: {got:e} should be {want:e} (tolerance {tol:e})"));
    }
    Ok(())
}
/// Identities between real evaluations, extreme arguments included.
fn c20_identities(a: &S) -> Res {
    let (b, mu, x) = (a.beta, a.mu.0, a.x);
    let nf = |e: f64| th::fermi_distribution(e, b, mu);
    let at = format!("at beta = {b}, mu = {mu}, x = {x}");
    // rounding of mu + x enters multiplied by beta
    let r = 1e-14 + 4. * U * b * (mu.abs() + x.abs());
    let (p, m) = (nf(mu + x), nf(mu - x));
    range(&format!("Fermi distribution {at}"), p, 0., 1.)?;
    range(&format!("Fermi distribution {at}"), m, 0., 1.)?;
    near(&format!("n(mu+x) + n(mu-x) {at}"), p + m, 1., r)?;
    near(&format!("Fermi distribution at the chemical potential {at}"), nf(mu), 0.5, 1e-15)?;
    // monotonically decreasing in energy, increasing in mu
    if x > 0. && p > m + r || x < 0. && p < m - r {
        return Err(format!("Fermi distribution does not decrease: {m:e} to {p:e} {at}"));
    }
    let e = a.en.0;
    let (u, v) = (th::fermi_distribution(e, b, mu), th::fermi_distribution(e, b, mu + x.abs()));
    if v < u * (1. - 1e-12) - r {
        return Err(format!("Fermi distribution decreases with the chemical potential: {u:e} to {v:e} at en = {e} {at}"));
    }
    // charge conjugation of the double distribution, and its parts
    let d = th::fermi_distribution_double(e, b, mu);
    near(&format!("double Fermi distribution {at}"), d, u + th::fermi_distribution(e, b, -mu), 1e-14)?;
    near(&format!("double Fermi distribution, parity {at}"), th::fermi_distribution_double(e, b, -mu), d, 1e-14)?;
    let z = th::fermi_distribution_zero_chempot(e, b);
    near(&format!("Fermi distribution at zero chemical potential {at}"), th::fermi_distribution(e, b, 0.), z, 1e-14)?;
    near(&format!("double Fermi distribution at zero chemical potential {at}"), th::fermi_distribution_double(e, b, 0.), 2. * z, 1e-14)?;
    if e != 0. {
        let z = th::bose_distribution_zero_chempot(e, b);
        near(&format!("Bose distribution at zero chemical potential {at}"), th::bose_distribution(e, b, 0.), z, 1e-13 * z.abs())?;
    }
    // Bose: positive above mu, reflection, decreasing
    if x != 0. {
        let nb = |e: f64| th::bose_distribution(e, b, mu);
        let (p, m) = (nb(mu + x), nb(mu - x));
        let y = (b * x).abs();
        // relative error of exp(y) - 1 and of mu + x - mu
        let e = (1e-14 + 4. * U * b * (mu.abs() + x.abs())) * (1. + 1. / y) * (1. + 1. / y);
        if e < 1e-3 {
            near(&format!("n_B(mu+x) + n_B(mu-x) {at}"), p + m, -1., 10. * e)?;
            let hi = if x > 0. { p } else { m };
            range(&format!("Bose distribution above the chemical potential {at}"), hi, 0., f64::INFINITY)?;
            let n2 = nb(mu + 2. * x.abs());
            if n2 > hi * (1. + 10. * e) {
                return Err(format!("Bose distribution does not decrease: {hi:e} to {n2:e} {at}"));
            }
            // n_B(x) = n_F(x) + 2 n_B(2 x)
            if x > 0. {
                near(&format!("n_B(x) - n_F(x) - 2 n_B(2x) {at}"), p - nf(mu + x) - 2. * n2, 0., 30. * e * (p + n2) + 1e-13)?;
            }
        }
    }
    Ok(if (b * x).abs() < 600. { Hit("moderate exponent") } else { Hit("overflowing exponent") })
}
fn c20_zero_temp(a: &S) -> Res {
    let (e, mu) = (a.en.0, a.mu.0);
    // states at the Fermi surface are occupied
    let at = (
        th::fermi_distribution_zero_temp(mu, mu),
        th::fermi_distribution_zero_temp(C::new(mu, a.en.1), mu).re,
        th::fermi_distribution_double_zero_temp(mu.abs(), mu),
        th::fermi_distribution_double_zero_temp(C::new(mu.abs(), a.en.1), mu).re,
    );
    let d = if mu == 0. { 2. } else { 1. };
    if at != (1., 1., d, d) {
        return Err(format!("zero-temperature distributions at the Fermi surface, mu = {mu}: {at:?}"));
    }
    let gap = (e - mu).abs().min((e + mu).abs());
    if gap <= 1e-12 * (e.abs() + mu.abs()) {
        return Ok(Triv("at the Fermi surface"));
    }
    let b = 800. / gap;
    near("zero-temperature Fermi distribution", th::fermi_distribution_zero_temp(e, mu), th::fermi_distribution(e, b, mu), 1e-300)?;
    near("zero-temperature double Fermi distribution", th::fermi_distribution_double_zero_temp(e, mu), th::fermi_distribution_double(e, b, mu), 1e-300)?;
    let en = c(a.en);
    let z = th::fermi_distribution_zero_temp(en, mu);
    if z != rc(if e < mu { 1. } else { 0. }) {
        return Err(format!("zero-temperature Fermi distribution of complex energy {en} at mu = {mu}: {z}"));
    }
    let z = th::fermi_distribution_double_zero_temp(en, mu);
    if z != rc(if e < mu { 1. } else { 0. } + if e < -mu { 1. } else { 0. }) {
        return Err(format!("zero-temperature double Fermi distribution of complex energy {en} at mu = {mu}: {z}"));
    }
    Ok(Hit("away from the Fermi surface"))
}
fn c20_energy(a: &S) -> Res {
    let (p, m) = (a.p, a.mu.0);
    let mut h = false;
    let e2 = er(p).sq() + er(m).sq();
    h |= cmpr("energy_squared", k::energy_squared(p, m), e2, K)?;
    h |= cmpr("energy", k::energy(p, m), e2.sqrt(), K)?;
    let mc = c(a.en);
    let e2 = er(p).sq() + ex(mc).sq();
    h |= cmp("energy_squared(complex mass)", k::energy_squared(p, mc), e2, K)?;
    // branch of the root: only away from the cut
    if e2.v.re > 0. || e2.v.im.abs() > 1e-6 * e2.v.norm() {
        h |= cmp("energy(complex mass)", k::energy(p, mc), e2.sqrt(), K)?;
    }
    // Fermi momentum: E(k_F) = |mu|
    let mass = a.x.abs();
    let mu = a.p.signum() * (mass + a.p.abs());
    let kf = th::fermi_momentum(mass, mu);
    let w = ((er(mu) - er(mass)) * (er(mu) + er(mass))).sqrt();
    // inputs are rounded: allow for the conditioning at threshold
    h |= cmpr("fermi_momentum", kf, E { e: w.e + 4. * U * (mu.abs() + mass), ..w }, K)?;
    near("energy at the Fermi momentum", k::energy(kf, mass), mu.abs(), 1e-13 * mu.abs())?;
    if th::fermi_momentum(mass, mass) != 0. {
        return Err(format!("Fermi momentum at threshold is {} for mass {mass}", th::fermi_momentum(mass, mass)));
    }
    Ok(if h { Hit("resolved") } else { Triv("rounding dominated") })
}
/// No NaN for finite real or complex arguments away from poles, however extreme.
fn c20_extreme(v: &[Fx]) -> Res {
    let (e, b, m, i) = (v[0].0, v[1].0.abs(), v[2].0, v[3].0);
    let x = (e - m) * b;
    if !x.is_finite() || !((e + m) * b).is_finite() || !(e * b).is_finite() || x == 0. || e == 0. {
        return Ok(Triv("exponent not representable"));
    }
    let fin = |what: &str, z: C, hi: f64| {
        if z.re.is_nan() || z.im.is_nan() || z.norm() > hi {
            Err(format!("{what} = {z} at en = {e:e} + {i:e}i, beta = {b:e}, mu = {m:e}"))
        } else {
            Ok(())
        }
    };
    fin("fermi_distribution", rc(th::fermi_distribution(e, b, m)), 1.)?;
    fin("fermi_distribution_double", rc(th::fermi_distribution_double(e, b, m)), 2.)?;
    fin("fermi_distribution_zero_chempot", rc(th::fermi_distribution_zero_chempot(e, b)), 1.)?;
    fin("fermi_distribution_zero_temp", rc(th::fermi_distribution_zero_temp(e, m)), 1.)?;
    if x.abs() > 1e-10 {
        fin("bose_distribution", rc(th::bose_distribution(e, b, m)), 1e11)?;
    }
    // complex energies whose real exponent is away from the poles
    let z = C::new(e, i);
    if (i * b).abs() < 1e6 && x.abs() > 1e-3 && (e * b).abs() > 1e-3 && ((e + m) * b).abs() > 1e-3 {
        fin("fermi_distribution (complex)", th::fermi_distribution(z, b, m), 1e7)?;
        fin("fermi_distribution_double (complex)", th::fermi_distribution_double(z, b, m), 1e7)?;
        fin("fermi_distribution_zero_chempot (complex)", th::fermi_distribution_zero_chempot(z, b), 1e7)?;
        fin("bose_distribution (complex)", th::bose_distribution(z, b, m), 1e7)?;
        fin("bose_distribution_zero_chempot (complex)", th::bose_distribution_zero_chempot(z, b), 1e7)?;
    }
    Ok(Hit("finite exponent"))
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C20",
        rule: "a case counts when the tolerance was below 1e-3 of a compared value, or an identity was evaluated at a representable exponent",
        assumptions: &["Bose distributions at exactly zero energy and Fermi functions exactly at their poles are not evaluated"],
        subs: || {
            let big = || prop_oneof![3 => sgnd(logu(1e-3, 1e3)), 2 => sgnd(logu(1e-150, 1e150)), 1 => sgnd(logu(1e-10, 1e10)), 1 => Just(0.)].prop_map(Fx);
            vec![
                Box::new(sub("c20-formulas", (300000, 4000000), s, c20_formulas)),
                Box::new(sub("c20-formulas-units", (200000, 4000000), s_wide, |a| if a.beta == 0. { c20_hot(a) } else { c20_formulas(a) })),
                Box::new(sub("c20-identities-units", (200000, 4000000), || s_wide().prop_filter("finite temperature", |a| a.beta != 0.), c20_identities)),
                Box::new(sub("c20-identities", (300000, 4000000), s, c20_identities)),
                Box::new(sub("c20-zero-temp", (100000, 500000), s, c20_zero_temp)),
                Box::new(sub("c20-energy", (150000, 1000000), s, c20_energy)),
                Box::new(sub("c20-extreme", (200000, 4000000), move || prop::collection::vec(big(), 4), |v| c20_extreme(v))),
            ]
        },
        init: None,
    }]
}
