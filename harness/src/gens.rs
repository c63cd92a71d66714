//! Input strategies shared by the checks.
use crate::ea::C;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

pub type BS<T> = BoxedStrategy<T>;

/// A float that survives JSON (infinities and NaN included).
#[derive(Clone, Copy, PartialEq)]
pub struct Fx(pub f64);
impl std::fmt::Debug for Fx {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:e}", self.0)
    }
}
impl Serialize for Fx {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0.is_finite() {
            s.serialize_f64(self.0)
        } else {
            s.serialize_str(&format!("{}", self.0))
        }
    }
}
impl<'de> Deserialize<'de> for Fx {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = serde_json::Value::deserialize(d)?;
        match v {
            serde_json::Value::String(s) => s.parse().map(Fx).map_err(serde::de::Error::custom),
            v => v.as_f64().map(Fx).ok_or_else(|| serde::de::Error::custom("number")),
        }
    }
}

pub fn logu(lo: f64, hi: f64) -> BS<f64> {
    (lo.ln()..hi.ln()).prop_map(|x| x.exp()).boxed()
}
pub fn uni(lo: f64, hi: f64) -> BS<f64> {
    (lo..hi).boxed()
}
pub fn nice() -> BS<f64> {
    prop::sample::select(vec![1., 0.5, 2., 0.25, 3., 0.1, 10., 0.656, 0.35, 1.5]).boxed()
}
/// A positive dimensionful quantity (momentum, mass, frequency, temperature).
pub fn pos() -> BS<f64> {
    prop_oneof![5 => logu(0.05, 20.), 3 => logu(1e-3, 1e3), 2 => nice()].boxed()
}
pub fn pos_wide() -> BS<f64> {
    prop_oneof![4 => logu(0.05, 20.), 3 => logu(1e-3, 1e3), 2 => logu(1e-6, 1e6), 1 => logu(1e-12, 1e14), 1 => nice()].boxed()
}
/// Typical magnitudes only (for integrated, expensive quantities).
pub fn typ() -> BS<f64> {
    prop_oneof![4 => logu(0.1, 5.), 1 => nice()].boxed()
}
pub fn sign() -> BS<f64> {
    prop::sample::select(vec![1., -1.]).boxed()
}
pub fn sgnd(s: BS<f64>) -> BS<f64> {
    (s, sign()).prop_map(|(a, b)| a * b).boxed()
}
/// Any real of moderate size, zero included.
pub fn real() -> BS<f64> {
    prop_oneof![6 => sgnd(pos()), 1 => Just(0.)].boxed()
}
/// Additive renormalization constants and gauge parameters.
pub fn rc() -> BS<f64> {
    prop_oneof![6 => uni(-3., 3.), 1 => Just(0.), 1 => Just(1.), 1 => sgnd(logu(1e-3, 1e3))].boxed()
}
/// Inverse temperature.
pub fn beta() -> BS<f64> {
    prop_oneof![6 => logu(0.1, 30.), 2 => logu(1e-3, 1e3), 1 => nice()].boxed()
}
pub fn mu() -> BS<f64> {
    prop_oneof![6 => sgnd(logu(0.05, 20.)), 2 => Just(0.), 1 => sgnd(logu(1e-3, 1e3))].boxed()
}
/// Complex number in polar form, all directions, off the negative real axis.
pub fn cplane(mag: BS<f64>) -> BS<(f64, f64)> {
    let pi = std::f64::consts::PI;
    let ang = prop_oneof![
        6 => uni(-0.97 * pi, 0.97 * pi),
        2 => Just(0.),
        2 => sgnd(Just(pi / 2.).boxed()),
        2 => sgnd(logu(1e-6, 0.1)),
        1 => sgnd(logu(1e-6, 0.1).prop_map(move |x| pi - x).boxed()),
    ];
    (mag, ang)
        .prop_map(move |(r, a)| {
            if a.abs() == pi / 2. {
                (0., r * a.signum())
            } else if a == 0. {
                (r, 0.)
            } else {
                (r * a.cos(), r * a.sin())
            }
        })
        .boxed()
}
/// Complex frequency: nonzero real part of either sign, any imaginary part.
pub fn cfreq(mag: BS<f64>) -> BS<(f64, f64)> {
    let pi = std::f64::consts::PI;
    let ang = prop_oneof![
        5 => uni(-pi, pi),
        2 => Just(0.),
        1 => Just(-pi),
        2 => sgnd(logu(1e-4, 0.1)).prop_map(move |x| pi / 2. + x),
        2 => sgnd(logu(1e-4, 0.1)).prop_map(move |x| -pi / 2. + x),
    ];
    (mag, ang)
        .prop_map(move |(r, a)| {
            if a == 0. {
                (r, 0.)
            } else if a == -pi {
                (-r, 0.)
            } else {
                (r * a.cos(), r * a.sin())
            }
        })
        .boxed()
}
pub fn c(z: (f64, f64)) -> C {
    C::new(z.0, z.1)
}
/// Kinematic point shared by thermal integrands.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Kin {
    pub q: f64,
    pub om: (f64, f64),
    pub p: f64,
    pub m1: f64,
    pub m2: f64,
    pub beta: f64,
    /// phases of the masses (complex masses)
    #[serde(default)]
    pub ph: (f64, f64),
}
impl Kin {
    pub fn cm1(&self) -> C {
        if self.ph.0 == 0. { C::new(self.m1, 0.) } else { C::from_polar(self.m1, self.ph.0) }
    }
    pub fn cm2(&self) -> C {
        if self.ph.1 == 0. { C::new(self.m2, 0.) } else { C::from_polar(self.m2, self.ph.1) }
    }
    pub fn om(&self) -> C {
        c(self.om)
    }
}
/// Masses that are often equal, nearly equal, or zero.
pub fn mass_pair() -> BS<(f64, f64)> {
    (pos(), pos(), 0..8u32, logu(1e-6, 0.1))
        .prop_map(|(a, b, k, x)| match k {
            0 => (a, a),
            1 => (a, 0.),
            2 => (0., b),
            3 => (a, a * (1. + x)),
            _ => (a, b),
        })
        .boxed()
}
pub fn kin() -> BS<Kin> {
    (pos(), cfreq(pos()), pos(), mass_pair(), beta(), 0..10u32)
        .prop_map(|(q, om, p, (m1, m2), beta, k)| {
            let sc = [1., 1., 1., 1., 1., 1., 1., 1., 1e-3, 30.][k as usize];
            Kin { q: q * sc, om: (om.0 * sc, om.1 * sc), p: p * sc, m1: m1 * sc, m2: m2 * sc, beta: beta / sc, ph: (0., 0.) }
        })
        .boxed()
}
/// Complex masses (phases up to 80 degrees; sometimes shared, conjugate, or only one of them).
pub fn kin_cm() -> BS<Kin> {
    let ph = || prop_oneof![3 => uni(-1.4, 1.4), 1 => sgnd(logu(1e-4, 0.3))];
    (kin(), ph(), ph(), 0..6u32, any::<bool>())
        .prop_map(|(k, a, b, w, r)| {
            let ph = match w {
                0 => (a, a),
                1 => (a, -a),
                2 => (a, 0.),
                3 => (0., b),
                _ => (a, b),
            };
            let om = if r { (k.om().norm(), 0.) } else { k.om };
            Kin { ph, om, m2: if w < 2 { k.m1 } else { k.m2 }, ..k }
        })
        .boxed()
}
pub fn kin_real_om() -> BS<Kin> {
    kin().prop_map(|k| {
        let c = k.om();
        let o = if c.re.abs() > 0.3 * c.norm() { c.re } else { c.norm() };
        Kin { om: (o, 0.), ..k }
    }).boxed()
}
