//! Parameter points and name-driven argument assembly for the uniform function registry.
use crate::ea::C;
use crate::gens::*;
use crate::refs::Fam;
use crate::registry::{Ctx, Ffi, Fun, FUNS};
use proptest::prelude::*;
use qcd_sme::qcd::FieldConfig;
use qcd_sme::Integral;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::OnceLock;

/// Reproducible description of a field configuration.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cfg {
    pub nc: u32,
    pub m: f64,
    pub quarks: Vec<(u32, f64)>,
}
impl Cfg {
    pub fn build(&self) -> FieldConfig {
        FieldConfig::new(self.nc, self.m, self.quarks.clone())
    }
}
/// Everything a function of the library can be asked about.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pt {
    pub om: (f64, f64),
    pub p: f64,
    pub m: f64,
    pub m2: f64,
    pub mq: f64,
    pub q: f64,
    pub beta: f64,
    pub mu: f64,
    pub f0: f64,
    pub xi: f64,
}
pub const G7: Integral = Integral::G7K15(1e-10, 50);

pub fn fun(name: &str) -> &'static Fun {
    static M: OnceLock<HashMap<&'static str, &'static Fun>> = OnceLock::new();
    M.get_or_init(|| FUNS.iter().map(|f| (f.name, f)).collect()).get(name).unwrap_or_else(|| panic!("no function {name}"))
}
pub fn has(name: &str) -> bool {
    FUNS.iter().any(|f| f.name == name)
}
pub fn base(name: &str) -> &str {
    name.rsplit("::").next().unwrap()
}
pub fn fam(name: &str) -> Fam {
    if name.contains("zero_matsubara") {
        Fam::ZMat
    } else if name.contains("zero_momentum") {
        Fam::ZMom
    } else {
        Fam::Gen
    }
}
impl Pt {
    pub fn om(&self) -> C {
        c(self.om)
    }
    pub fn get(&self, n: &str) -> C {
        let r = |x: f64| C::new(x, 0.);
        match n {
            "om" => self.om(),
            "q" => r(self.q),
            "p" => r(self.p),
            "m" | "m1" => r(self.m),
            "m2" => r(self.m2),
            "mq" => r(self.mq),
            "beta" => r(self.beta),
            "mu" => r(self.mu),
            "f0" | "g0" => r(self.f0),
            "xi" => r(self.xi),
            "en" => r((self.q * self.q + self.m * self.m).sqrt()),
            "delta" => r(self.m2 * self.m2 - self.m * self.m),
            // vacuum functions take a dimensionless squared momentum
            "s" => (self.om() * self.om() + self.p * self.p) / (self.m * self.m),
            "ln_s" => self.get("s").ln(),
            "ln_s_pl_1" => (self.get("s") + 1.).ln(),
            "n" => r(self.mu),
            "integral" | "config" => r(0.),
            o => panic!("argument {o}"),
        }
    }
    pub fn argv(&self, f: &Fun) -> Vec<C> {
        f.args.iter().map(|n| self.get(n)).collect()
    }
}
/// First variant able to take these values, evaluated with the given method and configuration.
pub fn eval_a(f: &Fun, a: &[C], integral: Integral, cfg: &FieldConfig) -> Option<C> {
    let v = f.vars.iter().find(|v| a.iter().enumerate().all(|(i, z)| z.im == 0. || v.mask >> i & 1 == 1))?;
    let t0 = std::time::Instant::now();
    let r = (v.f)(&Ctx { a, integral, cfg });
    if t0.elapsed().as_secs_f64() > 0.3 && std::env::var("QSV_SLOW").is_ok() {
        eprintln!("SLOW {:.1?} {} {integral:?} {a:?}", t0.elapsed(), f.name);
    }
    Some(r)
}
pub fn eval(f: &Fun, p: &Pt, cfg: &FieldConfig) -> Option<C> {
    eval_a(f, &p.argv(f), G7, cfg)
}
pub fn eval_m(f: &Fun, p: &Pt, integral: Integral, cfg: &FieldConfig) -> Option<C> {
    eval_a(f, &p.argv(f), integral, cfg)
}
pub fn eval_ffi(f: &Ffi, a: &[C], cfg: &FieldConfig) -> C {
    (f.f)(&Ctx { a, integral: G7, cfg })
}

/// Kinematics for integrated quantities: a common scale times order-one ratios. The library's default quadrature has
/// an absolute tolerance of 1e-10 and does not terminate in reasonable time when rounding noise of the integrand
/// exceeds it, so hierarchies of scales are left to the checks which choose their own tolerance.
pub fn pt() -> BS<Pt> {
    let r = || prop_oneof![4 => logu(0.3, 3.), 1 => nice_ratio()].boxed();
    let om = prop_oneof![
        4 => (r(), sign()).prop_map(|(a, s)| (a * s, 0.)),
        3 => (r(), sgnd(uni(0.0, 1.1))).prop_map(|(r, a)| (r * a.cos(), r * a.sin())),
        1 => (r(), sgnd(uni(0.0, 1.1))).prop_map(|(r, a)| (-r * a.cos(), r * a.sin())),
    ];
    (logu(0.5, 1.5), om, r(), r(), r(), r(), r(), (logu(0.5, 8.), mu_typ(), uni(-3., 3.), uni(-2., 2.)))
        .prop_map(|(k, om, p, m, m2, mq, q, (beta, mu, f0, xi))| Pt {
            om: (k * om.0, k * om.1),
            p: k * p,
            m: k * m,
            m2: k * m2,
            mq: k * mq,
            q: k * q,
            beta: beta / k,
            mu: k * mu,
            f0,
            xi,
        })
        .boxed()
}
pub fn nice_ratio() -> BS<f64> {
    prop::sample::select(vec![0.5, 1., 2., 1.5]).boxed()
}
/// Wide hierarchies of scales (only with an adapted tolerance).
pub fn pt_wide() -> BS<Pt> {
    let om = prop_oneof![
        4 => (typ(), sign()).prop_map(|(a, s)| (a * s, 0.)),
        3 => (typ(), sgnd(uni(0.0, 1.2))).prop_map(|(r, a)| (r * a.cos(), r * a.sin())),
        1 => (typ(), sgnd(uni(0.0, 1.2))).prop_map(|(r, a)| (-r * a.cos(), r * a.sin())),
        1 => logu(1e-3, 0.1).prop_map(|a| (a, 0.)),
    ];
    (om, typ(), typ(), typ(), typ(), typ(), (logu(0.2, 20.), mu_typ(), uni(-3., 3.), uni(-2., 2.)))
        .prop_map(|(om, p, m, m2, mq, q, (beta, mu, f0, xi))| Pt { om, p, m, m2, mq, q, beta, mu, f0, xi })
        .boxed()
}
pub fn mu_typ() -> BS<f64> {
    prop_oneof![6 => sgnd(logu(0.2, 5.)), 1 => Just(0.)].boxed()
}
pub fn pt_real() -> BS<Pt> {
    pt().prop_map(|p| {
        let c = p.om();
        Pt { om: (if c.re < 0. { -c.norm() } else { c.norm() }, 0.), ..p }
    })
    .boxed()
}
pub fn quark_list() -> BS<Vec<(u32, f64)>> {
    prop_oneof![
        8 => prop::collection::vec((prop_oneof![1 => Just(0u32), 8 => 1..5u32], logu(0.25, 4.)), 0..5),
        1 => prop::collection::vec((1..5u32, prop::sample::select(vec![0.2, 0.5, 0.35])), 1..5),
        // spectra with very light and very heavy flavours
        1 => prop::collection::vec((1..5u32, prop_oneof![2 => logu(0.25, 4.), 2 => logu(4., 400.), 1 => logu(0.02, 0.25)]), 1..5),
    ]
    .boxed()
}
pub fn cfg() -> BS<Cfg> {
    (1..8u32, logu(0.6, 2.), quark_list()).prop_map(|(nc, m, quarks)| Cfg { nc, m, quarks }).boxed()
}
