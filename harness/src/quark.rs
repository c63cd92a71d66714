//! C18, C19: quark charge density and chemical potential.
use crate::ea::*;
use crate::fw::*;
use crate::gens::*;
use crate::quad;
use crate::vac::Reset;
use proptest::prelude::*;
use qcd_sme::consts;
use qcd_sme::qcd::thermal::quark as q;
use qcd_sme::Integral;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

const PI2: f64 = PI * PI;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct D {
    m: f64,
    t: f64,
    mu: f64,
    nc: u32,
    meth: usize,
    k: f64,
}
fn d() -> BS<D> {
    let m = prop_oneof![1 => Just(0.), 6 => logu(0.05, 4.)];
    let t = prop_oneof![5 => logu(0.05, 1.5), 3 => logu(1e-3, 0.05)];
    let mu = prop_oneof![8 => sgnd(logu(0.05, 4.)), 1 => sgnd(logu(1e-4, 0.05)), 1 => Just(0.)];
    // only the square of the mass matters
    let sign = prop_oneof![3 => Just(1.), 1 => Just(-1.)];
    (m, t, mu, prop_oneof![2 => Just(3u32), 3 => 1..9u32], 0..7usize, logu(0.3, 3.), any::<bool>(), sign)
        .prop_map(|(m, t, mu, nc, meth, k, near, s)| D { m: s * m, t, mu: if near && m > 0. { m * mu.signum() * (1. + 0.1 * mu) } else { mu }, nc, meth, k })
        .boxed()
}
fn kf(m: f64, mu: f64) -> f64 {
    let m = m.abs();
    if mu.abs() > m { ((mu.abs() - m) * (mu.abs() + m)).sqrt() } else { 0. }
}
/// With the default number of colors (these cases may run concurrently).
fn d3() -> BS<D> {
    d().prop_map(|x| D { nc: 3, ..x }).boxed()
}
/// nc/pi^2 int q^2 (n_F(E - mu) - n_F(E + mu)) with n_F(E-mu) - n_F(E+mu) = sinh(b mu)/(cosh(b E) + cosh(b mu))
fn reference(a: &D) -> (f64, f64) {
    let b = 1. / a.t;
    let (m, mu) = (a.m.abs(), a.mu.abs());
    let f = |k: f64| {
        let e = (k * k + m * m).sqrt();
        let (x, y) = (b * e, b * mu);
        // divide numerator and denominator by exp(max(x, y))
        let s = x.max(y);
        let num = 0.5 * ((y - s).exp() - (-y - s).exp());
        let num = if y < 1e-3 { y * (1. + y * y / 6.) * (-s).exp() } else { num };
        let den = 0.5 * ((x - s).exp() + (-x - s).exp() + (y - s).exp() + (-y - s).exp());
        C::new(k * k * num / den, 0.)
    };
    let k0 = kf(a.m, a.mu);
    // spread of the Fermi step in momentum
    let top = ((mu.max(m) + 60. * a.t).powi(2) - m * m).sqrt();
    let w = a.t * (mu.max(m) + a.t) / k0.max((a.t * (m + a.t)).sqrt());
    let (v, e) = quad::adaptive(&quad::graded(0., top, &[(k0, 0.2 * w)]), 1e-11, 40000, &f);
    let n = a.nc as f64 * a.mu.signum() / PI2;
    if a.mu == 0. { (0., 0.) } else { (n * v.re, (n * e).abs()) }
}
fn near(what: &str, a: &D, got: f64, want: f64, tol: f64) -> Result<bool, String> {
    let dd = (got - want).abs();
    if dd.is_nan() || dd > tol {
        return Err(format!("{what}: {got:e} should be {want:e} (|diff| {dd:e} > {tol:e}) for m = {}, T = {}, mu = {}, nc = {}", a.m, a.t, a.mu, a.nc));
    }
    Ok(tol < 1e-3 * want.abs())
}
/// Default method against the reference. Absolute tolerance of the library: 1e-10; its error estimate is occasionally fooled.
fn c18_integral(a: &D) -> Res {
    let _r = Reset;
    consts::set_number_of_colors(a.nc);
    let (want, e) = reference(a);
    let got = q::charge_density(a.m, 1. / a.t, a.mu);
    let h = near("charge density", a, got, want, 3e-8 * a.nc as f64 + 1e-7 * want.abs() + 30. * e)?;
    Ok(if h { Hit("resolved") } else { Triv("small density") })
}
fn meth(k: usize, t: f64) -> (Integral, f64) {
    match k {
        0 => (Integral::G7K15(t, 20), t),
        1 => (Integral::G10K21(t, 14), t),
        2 => (Integral::G15K31(t, 14), t),
        3 => (Integral::G20K41(t, 14), t),
        4 => (Integral::G25K51(t, 14), t),
        5 => (Integral::G30K61(t, 14), t),
        _ => (Integral::G7K15R(1e-7, 14), t),
    }
}
fn c18_methods(a: &D) -> Res {
    let _r = Reset;
    consts::set_number_of_colors(a.nc);
    let (want, e) = reference(a);
    let (m, t) = meth(a.meth, 1e-7 * want.abs().max(1e-3));
    let got = q::charge_density_with_method(a.m, 1. / a.t, a.mu, m);
    let h = near(&format!("charge density with {m:?}"), a, got, want, 1e-4 * want.abs() + 300. * t + 30. * e)?;
    Ok(if h { Hit("resolved") } else { Triv("small density") })
}
/// The same point in other units, with a tolerance in proportion.
fn c18_units(a: &D, u: f64) -> Res {
    let (want, e) = reference(a);
    let u3 = u.powi(3);
    let (m, t) = meth(a.meth.min(5), 1e-7 * want.abs().max(1e-3) * u3);
    let mut hit = false;
    for (what, got) in [
        ("charge density", q::charge_density_with_method(u * a.m, 1. / (u * a.t), u * a.mu, m)),
        ("zero-temperature charge density", q::charge_density_zero_temp(u * a.m, u * a.mu)),
    ] {
        let (want, e) = if what.starts_with('z') { (3. * kf(a.m, a.mu).powi(3) * a.mu.signum() / (3. * PI2), 0.) } else { (want, e) };
        hit |= near(&format!("{what} with {m:?} in units {u:e} times smaller"), a, got / u3, want, 1e-4 * want.abs() + 300. * t / u3 + 30. * e)?;
    }
    Ok(if hit { Hit("resolved") } else { Triv("small density") })
}
/// Settings select the default method.
fn c18_settings(a: &D) -> Res {
    let _r = Reset;
    consts::set_number_of_colors(a.nc);
    let tol = 10f64.powf(-9. + 3. * a.k);
    let it = (a.k * 5.) as u32;
    let x = q::charge_density_with_method(a.m, 1. / a.t, a.mu, Integral::G7K15(tol, it));
    let d0 = q::charge_density(a.m, 1. / a.t, a.mu);
    consts::set_default_tol_integral(tol);
    consts::set_default_max_iter_integral(it);
    let y = q::charge_density(a.m, 1. / a.t, a.mu);
    near("charge density with default settings changed", a, y, x, 1e-12 * x.abs() + 1e-290)?;
    Ok(if (d0 - y).abs() > 1e-11 * y.abs() { Hit("settings mattered") } else { Triv("settings did not matter") })
}
fn c18_relations(a: &D) -> Res {
    let _r = Reset;
    consts::set_number_of_colors(a.nc);
    let b = 1. / a.t;
    let at = |mu: f64| q::charge_density(a.m, b, mu);
    let n = at(a.mu);
    let noise = 3e-8 * a.nc as f64 + 1e-7 * n.abs();
    near("odd in the chemical potential", a, at(-a.mu), -n, 1e-12 * n.abs() + 1e-14)?;
    near("vanishes at zero chemical potential", a, at(0.), 0., 1e-14)?;
    let mut h = n.abs() > 1e3 * noise;
    // strictly increasing: dn/dmu >= 0, and measurably larger at k*mu
    let (lo, hi) = if a.k < 1. { (a.k * a.mu.abs(), a.mu.abs()) } else { (a.mu.abs(), a.k * a.mu.abs()) };
    if hi - lo > 0.05 * hi {
        let (x, y) = (at(lo), at(hi));
        if y - x < -noise {
            return Err(format!("charge density decreases from {x:e} at mu = {lo} to {y:e} at mu = {hi} for m = {}, T = {}", a.m, a.t));
        }
        h &= y - x > noise;
    }
    let z0 = q::charge_density_zero_temp(a.m, a.mu);
    near("odd in the chemical potential at zero temperature", a, q::charge_density_zero_temp(a.m, -a.mu), -z0, 0.)?;
    // at finite temperature the density is at least the zero-temperature one
    if n.abs() < z0.abs() - noise - 1e-7 * z0.abs() {
        return Err(format!("charge density {n:e} at T = {} below its zero-temperature value {z0:e} (m = {}, mu = {})", a.t, a.m, a.mu));
    }
    // proportional to the number of colors
    let nc2 = a.nc % 7 + 2;
    consts::set_number_of_colors(nc2);
    near("proportional to the number of colors", a, at(a.mu) / nc2 as f64, n / a.nc as f64, 2. * noise)?;
    near("proportional to the number of colors at zero temperature", a, q::charge_density_zero_temp(a.m, a.mu) / nc2 as f64, z0 / a.nc as f64, 1e-13 * z0.abs())?;
    Ok(if h { Hit("resolved") } else { Triv("small density") })
}
/// Massless closed form, finite and zero temperature.
fn c18_closed(a: &D) -> Res {
    let _r = Reset;
    consts::set_number_of_colors(a.nc);
    let nc = a.nc as f64;
    let (t, mu) = (a.t, a.mu);
    let want = nc * (mu * t * t / 3. + mu * mu * mu / (3. * PI2));
    let mut h = near("massless charge density", a, q::charge_density(0., 1. / t, mu), want, 3e-8 * nc + 1e-7 * want.abs())?;
    let k = kf(a.m, mu);
    let z = nc * mu.signum() * k * k * k / (3. * PI2);
    let z = if mu == 0. { 0. } else { z };
    h |= near("zero-temperature charge density", a, q::charge_density_zero_temp(a.m, mu), z, 1e-11 * z.abs())?;
    if mu.abs() <= a.m.abs() && q::charge_density_zero_temp(a.m, mu) != 0. {
        return Err(format!("zero-temperature charge density not zero below threshold: m = {}, mu = {mu}", a.m));
    }
    Ok(if h { Hit("resolved") } else { Triv("small density") })
}
/// Large beta: approaches the zero-temperature value as T^2 (exponentially below threshold).
fn c18_limit(a: &D) -> Res {
    let _r = Reset;
    consts::set_number_of_colors(a.nc);
    let nc = a.nc as f64;
    let mu = a.mu.abs();
    let gap = (mu - a.m.abs()).abs();
    if gap < 0.02 || mu < 0.05 {
        return Ok(Triv("at threshold"));
    }
    let t = gap * 0.01 * a.k.min(1.);
    let got = q::charge_density(a.m, 1. / t, a.mu);
    let z = q::charge_density_zero_temp(a.m, a.mu);
    let k = kf(a.m, mu);
    let som = if k > 0. { a.mu.signum() * nc * t * t / 3. * (2. * mu * mu - a.m * a.m) / (2. * k) * 1.0 } else { 0. };
    let tol = 3e-8 * nc + 1e-7 * z.abs() + 0.2 * som.abs();
    near("low-temperature charge density", a, got, z + som, tol)?;
    Ok(if k > 0. && tol < 1e-2 * z.abs() { Hit("above threshold") } else if k == 0. { Hit("below threshold") } else { Triv("small density") })
}

// ---------------------------------------------------------------- C19
fn c19_round(a: &D) -> Res {
    let _r = Reset;
    consts::set_number_of_colors(a.nc);
    let b = 1. / a.t;
    let n = q::charge_density(a.m, b, a.mu);
    let mu = q::chemical_potential(a.m, b, n);
    let noise = 3e-8 * a.nc as f64 + 1e-7 * n.abs();
    let back = q::charge_density(a.m, b, mu);
    near("charge density at the chemical potential of a density", a, back, n, noise)?;
    if n != 0. && mu * n < 0. {
        return Err(format!("chemical potential {mu} has the wrong sign for density {n:e}"));
    }
    // where the density is steep the chemical potential itself is recovered
    let h = 1e-3 * a.mu.abs().max(1e-3);
    let sl = (q::charge_density(a.m, b, a.mu + h) - q::charge_density(a.m, b, a.mu - h)) / (2. * h);
    let tol = 3. * noise / sl.abs() + 1e-9 * a.mu.abs();
    if sl * h > 10. * noise {
        near("chemical potential of a charge density", a, mu, a.mu, tol)?;
        return Ok(Hit("recovered"));
    }
    Ok(if noise < 1e-3 * n.abs() { Hit("round trip") } else { Triv("small density") })
}
/// Densities which were not produced by the library.
fn c19_density(a: &D, n: f64) -> Res {
    let _r = Reset;
    consts::set_number_of_colors(a.nc);
    let b = 1. / a.t;
    let mu = q::chemical_potential(a.m, b, n);
    let back = reference(&D { mu, ..a.clone() });
    near("reference charge density at the chemical potential", &D { mu, ..a.clone() }, back.0, n, 3e-8 * a.nc as f64 + 1e-7 * n.abs() + 30. * back.1)?;
    near("odd in the density", a, q::chemical_potential(a.m, b, -n), -mu, 1e-9 * mu.abs())?;
    Ok(if n.abs() > 1e-5 { Hit("round trip") } else { Triv("small density") })
}
fn c19_methods(a: &D, n: f64) -> Res {
    let _r = Reset;
    consts::set_number_of_colors(a.nc);
    let b = 1. / a.t;
    let (m, t) = meth(a.meth, 1e-6 * n.abs().max(1e-3));
    let mu = q::chemical_potential_with_method(a.m, b, n, m);
    let back = reference(&D { mu, ..a.clone() });
    near(&format!("reference charge density at the chemical potential with {m:?}"), &D { mu, ..a.clone() }, back.0, n, 1e-3 * n.abs() + 300. * t)?;
    Ok(if n.abs() > 1e-2 { Hit("round trip") } else { Triv("small density") })
}
fn c19_zero_temp(a: &D, n: f64) -> Res {
    let _r = Reset;
    consts::set_number_of_colors(a.nc);
    let mu = q::chemical_potential_zero_temp(a.m, n);
    let k = (3. * PI2 * n.abs() / a.nc as f64).cbrt();
    let want = if n == 0. { 0. } else { n.signum() * (k * k + a.m * a.m).sqrt() };
    near("zero-temperature chemical potential", a, mu, want, 1e-12 * want.abs())?;
    // the inverse of the density: cancellation close to threshold costs (m/k)^2
    let back = q::charge_density_zero_temp(a.m, mu);
    near("zero-temperature charge density at its chemical potential", a, back, n, n.abs() * (1e-12 + 1e-15 * (a.m / k).powi(2)).min(1.))?;
    if a.mu.abs() > a.m.abs() {
        let z = q::charge_density_zero_temp(a.m, a.mu);
        near("zero-temperature chemical potential of a density", a, q::chemical_potential_zero_temp(a.m, z), a.mu, 1e-11 * a.mu.abs())?;
    }
    if q::chemical_potential_zero_temp(a.m, 0.) != 0. || q::chemical_potential(a.m, 1. / a.t, 0.) != 0. {
        return Err("chemical potential of zero density is not zero".into());
    }
    Ok(if n != 0. { Hit("nonzero") } else { Triv("zero density") })
}
fn dens() -> BS<f64> {
    prop_oneof![6 => sgnd(logu(1e-4, 10.)), 2 => sgnd(logu(1e-9, 1e-4))].boxed()
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C18",
            rule: "a case counts when the density exceeds 1e3 times the tolerance (or the settings changed the result)",
            assumptions: &["masses and chemical potentials up to 4, temperatures 1e-3..1.5: the library's absolute quadrature tolerance sets the range"],
            subs: || {
                vec![
                    Box::new(sub("c18-integral", (6000, 300000), d3, c18_integral).shrink(100)),
                    Box::new(sub("c18-integral-nc", (600, 20000), d, c18_integral).exclusive().shrink(100)),
                    Box::new(sub("c18-methods", (3000, 200000), d3, c18_methods).shrink(100)),
                    Box::new(
                        sub("c18-units", (1500, 100000), || (d3().prop_map(|a| D { t: a.t.max(0.1), ..a }), prop_oneof![logu(1e-2, 1e3), logu(1e-1, 1e1)]), |(a, u)| c18_units(a, *u))
                            .shrink(100),
                    ),
                    Box::new(sub("c18-settings", (600, 20000), d, c18_settings).exclusive().shrink(100)),
                    Box::new(sub("c18-relations", (800, 30000), d, c18_relations).exclusive().shrink(100)),
                    Box::new(sub("c18-closed-forms", (1500, 50000), d, c18_closed).exclusive().shrink(100)),
                    Box::new(sub("c18-low-temperature", (3000, 100000), d3, c18_limit).shrink(100)),
                ]
            },
            init: None,
        },
        Property {
            id: "C19",
            rule: "a case counts when the density exceeds 1e3 times the tolerance",
            assumptions: &["masses up to 4, temperatures 1e-3..1.5, densities up to 10"],
            subs: || {
                vec![
                    Box::new(sub("c19-round-trip", (2000, 100000), d3, c19_round).shrink(100)),
                    Box::new(sub("c19-round-trip-nc", (200, 6000), d, c19_round).exclusive().shrink(100)),
                    Box::new(sub("c19-densities", (2000, 100000), || (d3(), dens()), |(a, n)| c19_density(a, *n)).shrink(100)),
                    Box::new(sub("c19-methods", (1000, 60000), || (d3(), dens()), |(a, n)| c19_methods(a, *n)).shrink(100)),
                    Box::new(
                        sub("c19-zero-temp", (20000, 500000), || (d(), prop_oneof![6 => dens(), 2 => sgnd(logu(10., 1e6)), 1 => Just(0.)]), |(a, n)| c19_zero_temp(a, *n))
                            .exclusive(),
                    ),
                ]
            },
            init: None,
        },
    ]
}
