//! C23: global settings as registers, checked against a model over operation histories.
use crate::ea::*;
use crate::fw::*;
use crate::gens::*;
use crate::pts::*;
use crate::vac::Reset;
use proptest::prelude::*;
use qcd_sme::{consts, Integral};
use serde::{Deserialize, Serialize};
use std::process::{Command, Stdio};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct State {
    nc: u32,
    nf: u32,
    mq: f64,
    tol: f64,
    it: u32,
    reg: f64,
}
const DEF: State = State { nc: 3, nf: 1, mq: 0.5, tol: 1e-10, it: 50, reg: 1e-5 };
fn now() -> State {
    State {
        nc: consts::get_number_of_colors(),
        nf: consts::get_number_of_fermions(),
        mq: consts::get_default_quark_mass(),
        tol: consts::get_default_tol_integral(),
        it: consts::get_default_max_iter_integral(),
        reg: consts::get_matsubara_reg(),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Nc(u32),
    Nf(u32),
    Mq(f64),
    Tol(f64),
    It(u32),
    Reg(f64),
    /// vacuum functions: ratio nf/nc
    Vac(f64, f64),
    /// thermal polarization: nf, nc through the quark contribution
    Thermal(Pt),
    /// charge density: nc
    Dens(f64, f64),
    /// integration defaults
    Int(Pt),
}
fn apply(o: &Op, m: &mut State) {
    match o {
        Op::Nc(n) => {
            consts::set_number_of_colors(*n);
            m.nc = *n;
        }
        Op::Nf(n) => {
            consts::set_number_of_fermions(*n);
            m.nf = *n;
        }
        Op::Mq(x) => {
            consts::set_default_quark_mass(*x);
            m.mq = *x;
        }
        Op::Tol(x) => {
            consts::set_default_tol_integral(*x);
            m.tol = *x;
        }
        Op::It(n) => {
            consts::set_default_max_iter_integral(*n);
            m.it = *n;
        }
        Op::Reg(x) => {
            consts::set_matsubara_reg(*x);
            m.reg = *x;
        }
        _ => {}
    }
}
fn restore(m: &State) {
    consts::set_number_of_colors(m.nc);
    consts::set_number_of_fermions(m.nf);
    consts::set_default_quark_mass(m.mq);
    consts::set_default_tol_integral(m.tol);
    consts::set_default_max_iter_integral(m.it);
    consts::set_matsubara_reg(m.reg);
}
fn near(what: &str, m: &State, got: C, want: C, tol: f64) -> Result<(), String> {
    let d = (got - want).norm();
    if d.is_nan() || d > tol {
        return Err(format!("{what} with settings {m:?}: {got:e} should be {want:e} (tolerance {tol:e})"));
    }
    Ok(())
}
fn c23_history(ops: &[Op]) -> Res {
    let _r = Reset;
    let mut m = DEF;
    if now() != DEF {
        return Err(format!("settings {:?} after restoring the defaults", now()));
    }
    let cfg = crate::integrands::dummy_cfg();
    let (mut sets, mut uses) = (0, 0);
    for o in ops {
        apply(o, &mut m);
        if now() != m {
            return Err(format!("after {o:?} the settings are {:?} instead of {m:?}", now()));
        }
        let dm = consts::get_default_integration_method();
        let ok = matches!(dm, Integral::G7K15(t, i) if t == m.tol && i == m.it);
        if !ok {
            return Err(format!("default integration method {dm:?} with settings {m:?}"));
        }
        let ratio = m.nf as f64 / m.nc as f64;
        // tolerances below the rounding noise make adaptive integration exhaust its iterations: 2^40 intervals
        let costly = (m.tol < 1e-7 && m.it > 14 && !(m.tol == 1e-10 && m.it == 50)) || m.it > 100;
        match o {
            // nothing is defined without colors, but they may be set later
            Op::Vac(..) | Op::Thermal(_) | Op::Dens(..) | Op::Int(_) if m.nc == 0 => {}
            Op::Vac(s, q) => {
                use qcd_sme::low_level::oneloop::gluon::{f_q, f_q_crossed};
                use qcd_sme::{qcd, ym};
                let y = ym::gluon::dressing_inv_landau(*s, 0.3);
                let sq = s / (q * q);
                let t = 1e-12 * (y.abs() + 10. + (1. / s).powi(3) + (1. / sq).powi(3) + sq) * (1. + ratio);
                let v = qcd::gluon::dressing_inv_landau(*s, *q, 0.3);
                near(&format!("qcd inverse dressing at s = {s}, mq = {q}"), &m, C::new(v, 0.), C::new(y + ratio * f_q(sq), 0.), t)?;
                let v = qcd::gluon::dressing_crossed_inv_landau(*s, *q, 0.3);
                near(&format!("qcd crossed inverse dressing at s = {s}, mq = {q}"), &m, C::new(v, 0.), C::new(y + ratio * f_q_crossed(sq), 0.), t)?;
                uses += 1;
            }
            // the integration tolerance applies to the integral before its multiplication by nf
            Op::Thermal(p) if m.nf < 10 => {
                // the quark part of the inverse dressing is proportional to nf/nc
                let f = fun("qcd::thermal::gluon::dressing_l_inv_landau");
                let y = fun("ym::thermal::gluon::dressing_l_inv_landau");
                let fine = |s: &State| State { tol: 1e-7, it: 14, ..s.clone() };
                restore(&fine(&m));
                let d = eval(f, p, cfg).unwrap() - eval(y, p, cfg).unwrap();
                restore(&State { nc: 1, nf: 1, ..fine(&m) });
                let d1 = eval(f, p, cfg).unwrap() - eval(y, p, cfg).unwrap();
                restore(&m);
                let s = (p.om() * p.om() + p.p * p.p).norm();
                near(&format!("quark part of the inverse dressing at {p:?}"), &m, d, d1 * ratio, 2e-3 * (d1.norm() * (1. + ratio) + (1. + ratio) / s))?;
                uses += 1;
            }
            Op::Dens(mass, mu) if !costly && m.nc <= 100_000 => {
                use qcd_sme::qcd::thermal::quark::*;
                let k = (mu * mu - mass * mass).max(0.).sqrt();
                near("zero-temperature charge density", &m, C::new(charge_density_zero_temp(*mass, *mu), 0.), C::new(m.nc as f64 * k.powi(3) / (3. * std::f64::consts::PI.powi(2)), 0.), 1e-6 * k.powi(3) * m.nc as f64 + 1e-12)?;
                let a = charge_density(*mass, 5., *mu);
                let b = charge_density_with_method(*mass, 5., *mu, Integral::G7K15(m.tol, m.it));
                near("charge density with default method", &m, C::new(a, 0.), C::new(b, 0.), 1e-12 * b.abs() + 1e-300)?;
                uses += 1;
            }
            Op::Int(p) if m.reg < 0.2 && m.reg >= 1e-6 && !costly && m.tol >= 1e-7 => {
                for n in ["gluon::polarization_glue_l_thermal_part_landau", "ghost::zero_matsubara::self_energy_thermal_part_landau"] {
                    let n = format!("low_level::oneloop::thermal::{n}");
                    let a = eval(fun(&n), p, cfg).unwrap();
                    let b = eval_m(fun(&format!("{n}_w_method")), p, Integral::G7K15(m.tol, m.it), cfg).unwrap();
                    if b.re.is_finite() {
                        // near the regulated singularity the never-changed default tolerance is relaxed by design
                        let relaxed = n.contains("zero_matsubara") && m.tol == 1e-10 && m.it == 50;
                        let t = if relaxed { 1e-6 + 1e-3 * b.norm() } else { 1e-12 * b.norm() + 1e-300 };
                        near(&format!("{n} with default method"), &m, a, b, t)?;
                    }
                }
                uses += 1;
            }
            Op::Thermal(_) | Op::Dens(..) | Op::Int(_) => {}
            _ => sets += 1,
        }
        if now() != m {
            return Err(format!("evaluating {o:?} left the settings at {:?} instead of {m:?}", now()));
        }
    }
    Ok(if sets > 1 && uses > 0 { Hit("settings and dependent evaluations") } else if sets > 1 { Hit("settings") } else { Triv("one setting") })
}
fn op() -> BS<Op> {
    prop_oneof![
        3 => prop_oneof![5 => 1..10u32, 1 => 10..100000u32, 1 => (10..32u32, any::<u32>()).prop_map(|(k, n)| (n >> k).max(1)), 1 => Just(u32::MAX), 1 => Just(0)].prop_map(Op::Nc),
        3 => prop_oneof![5 => 0..10u32, 1 => 10..100000u32, 1 => any::<u32>()].prop_map(Op::Nf),
        2 => prop_oneof![4 => real(), 1 => sgnd(logu(1e-300, 1e300)), 1 => prop::sample::select(vec![0., 5e-324, f64::MAX, f64::INFINITY, f64::NEG_INFINITY])].prop_map(Op::Mq),
        2 => prop_oneof![3 => logu(1e-9, 1e-2), 1 => logu(1e-2, 1e3), 1 => logu(1e-300, 1e300), 1 => prop::sample::select(vec![5e-324, f64::MAX, f64::INFINITY, f64::MIN_POSITIVE])].prop_map(Op::Tol),
        2 => prop_oneof![3 => 0..15u32, 1 => 15..100u32, 1 => any::<u32>(), 1 => 0..20000u32].prop_map(Op::It),
        2 => prop_oneof![3 => logu(1e-6, 0.1), 1 => logu(0.1, 1e3), 1 => logu(1e-300, 1e300), 1 => prop::sample::select(vec![5e-324, f64::MAX, f64::INFINITY, f64::MIN_POSITIVE])].prop_map(Op::Reg),
        4 => (logu(0.05, 20.), logu(0.1, 5.)).prop_map(|(s, q)| Op::Vac(s, q)),
        1 => pt().prop_map(Op::Thermal),
        1 => (uni(0., 1.), uni(0.1, 2.)).prop_map(|(m, mu)| Op::Dens(m, mu)),
        1 => pt().prop_map(Op::Int),
    ]
    .boxed()
}

// ---------------------------------------------------------------- rejections, in a child process
/// Runs in a child: prints the initial settings, applies valid operations, then a setter which must be rejected.
/// Setters are `extern "C"`: their panic may abort the process, so the state is printed from the panic hook.
pub fn child(arg: &str) {
    unsafe { core_limit() };
    let a: (Vec<Op>, String, String) = serde_json::from_str(arg).expect("child argument");
    println!("INIT {}", serde_json::to_string(&now()).unwrap());
    let mut m = DEF;
    for o in &a.0 {
        apply(o, &mut m);
    }
    std::panic::set_hook(Box::new(|_| {
        use std::io::Write;
        println!("REJECTED {}", serde_json::to_string(&now()).unwrap());
        std::io::stdout().flush().unwrap();
    }));
    let x: f64 = a.2.parse().unwrap();
    match a.1.as_str() {
        "tol" => consts::set_default_tol_integral(x),
        "reg" => consts::set_matsubara_reg(x),
        _ => {}
    }
    println!("ACCEPTED {}", serde_json::to_string(&now()).unwrap());
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
unsafe fn core_limit() {
    setrlimit(4, &[0, 0]);
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rej {
    ops: Vec<Op>,
    which: String,
    x: String,
}
fn c23_reject(r: &Rej) -> Res {
    let arg = serde_json::to_string(&(&r.ops, &r.which, &r.x)).unwrap();
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["c23-child", &arg])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .map_err(|e| format!("cannot run the child process: {e}"))?;
    let out = String::from_utf8_lossy(&out.stdout).to_string();
    let line = |k: &str| out.lines().find_map(|l| l.strip_prefix(k)).and_then(|s| serde_json::from_str::<State>(s).ok());
    let Some(init) = line("INIT ") else { return Err(format!("child process failed: {out}")) };
    if init != DEF {
        return Err(format!("initial settings {init:?} are not the documented defaults {DEF:?}"));
    }
    let mut m = DEF;
    for o in &r.ops {
        match o {
            Op::Nc(n) => m.nc = *n,
            Op::Nf(n) => m.nf = *n,
            Op::Mq(x) => m.mq = *x,
            Op::Tol(x) => m.tol = *x,
            Op::It(n) => m.it = *n,
            Op::Reg(x) => m.reg = *x,
            _ => {}
        }
    }
    let x: f64 = r.x.parse().unwrap();
    let valid = x > 0.;
    match (line("ACCEPTED "), line("REJECTED ")) {
        (Some(s), None) if valid => {
            match r.which.as_str() {
                "tol" => m.tol = x,
                _ => m.reg = x,
            }
            if s != m {
                return Err(format!("setting {} to {x:e} gave {s:?} instead of {m:?}", r.which));
            }
            Ok(Hit("accepted"))
        }
        (None, Some(s)) if !valid => {
            if s != m {
                return Err(format!("rejecting {} = {x:e} changed the settings: {s:?} instead of {m:?}", r.which));
            }
            Ok(Hit("rejected"))
        }
        _ => Err(format!("setting {} to {x:e} was {}", r.which, if valid { "rejected" } else { "accepted" })),
    }
}
fn rej() -> BS<Rej> {
    let o = prop_oneof![
        (1..10u32).prop_map(Op::Nc),
        (0..10u32).prop_map(Op::Nf),
        pos().prop_map(Op::Mq),
        logu(1e-9, 1.).prop_map(Op::Tol),
        (0..40u32).prop_map(Op::It),
        logu(1e-6, 1.).prop_map(Op::Reg),
    ];
    let x = prop_oneof![
        4 => prop::sample::select(vec!["0", "-0", "-1", "-1e-300", "NaN", "-inf", "-1e-10"]).prop_map(|s| s.to_string()),
        2 => real().prop_map(|x| format!("{x:e}")),
        1 => prop::sample::select(vec!["1e-300", "5e-324", "1e300"]).prop_map(|s| s.to_string()),
    ];
    (prop::collection::vec(o, 0..4), prop::sample::select(vec!["tol", "reg"]), x).prop_map(|(ops, w, x)| Rej { ops, which: w.into(), x }).boxed()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C23",
        rule: "a case counts when more than one setting was changed, or a setter was tried in a fresh process",
        assumptions: &["rejection is observed in a child process: setters have C linkage and abort when they panic"],
        subs: || {
            vec![
                Box::new(sub("c23-histories", (4000, 100000), || prop::collection::vec(op(), 1..30), |o| c23_history(o)).exclusive()),
                Box::new(sub("c23-rejections", (400, 10000), rej, c23_reject).shrink(60)),
            ]
        },
        init: None,
    }]
}
