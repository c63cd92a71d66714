//! C04, C05: field configurations.
use crate::ea::*;
use crate::fw::*;
use crate::gens::*;
use crate::integrated::{noise, persistent};
use crate::pts::*;
use crate::refs::Fam;
use crate::registry::{Fun, FUNS};
use crate::vac::Reset;
use proptest::prelude::*;
use qcd_sme::consts;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, Ordering};

fn vac(f: &Fun) -> bool {
    f.args.contains(&"s")
}
fn funs(v: bool) -> Vec<&'static Fun> {
    FUNS.iter().filter(|f| f.name.ends_with("_w_field_config") && vac(f) == v).collect()
}
fn inverse(f: &Fun) -> bool {
    f.name.contains("_inv")
}
fn val(f: &Fun, p: &Pt, c: &Cfg) -> Option<C> {
    eval(f, p, &c.build())
}
/// Rounding/quadrature noise of f at p with configuration c.
fn tolr(f: &Fun, p: &Pt, c: &Cfg, v: C) -> f64 {
    let n: f64 = 1. + c.quarks.iter().map(|q| q.0 as f64).sum::<f64>();
    if vac(f) {
        let s = p.get("s").norm();
        // the vacuum quark functions cancel terms of relative order (mq^2/s)^3 and s^-3
        let mut big: f64 = 1. + s.powi(-3) + s * s * s;
        for q in &c.quarks {
            let r = (q.1 / c.m) * (q.1 / c.m) / s;
            big = big.max(1. + r.powi(3) + r.powi(-3));
        }
        let e = 1e-14 * n * big;
        if inverse(f) { e } else { e * v.norm_sqr() * if f.name.contains("propagator") { s } else { 1. } }
    } else {
        noise(f, p, v, n * if fam(f.name) == Fam::ZMat { 5e-7 } else { 1e-8 })
    }
}
fn same(f: &Fun, a: Option<C>, b: Option<C>, tol: f64, what: &str) -> Result<bool, String> {
    let (Some(a), Some(b)) = (a, b) else { return Ok(false) };
    if !a.re.is_finite() {
        return Ok(false);
    }
    let tol = tol + 1e-11 * a.norm();
    let d = (a - b).norm();
    if d.is_nan() || d > tol {
        return Err(format!("{} {what}: {a:e} against {b:e} (tolerance {tol:e})", f.name));
    }
    Ok(tol < 1e-3 * a.norm())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mix {
    p: Pt,
    c: Cfg,
    perm: Vec<u32>,
    ks: Vec<usize>,
}
fn mix(n: usize, per: usize) -> BS<Mix> {
    (pt(), cfg(), prop::collection::vec(any::<u32>(), 12), prop::collection::vec(0..n, per))
        .prop_map(|(mut p, mut c, perm, ks)| {
            // dimensionless arguments of the vacuum functions are in units of the gluon mass of the configuration
            let k = p.m / c.m;
            c.m = p.m;
            c.quarks.iter_mut().for_each(|q| q.1 *= k);
            p.m2 = c.m;
            Mix { p, c, perm, ks }
        })
        .boxed()
}
/// The same flavours listed differently: each entry split at random, zero entries inserted, shuffled.
fn relist(c: &Cfg, r: &[u32]) -> Cfg {
    let mut q = vec![];
    let mut i = 0;
    let mut nx = || {
        i += 1;
        r[i % r.len()] as usize
    };
    for (n, m) in &c.quarks {
        let mut left = *n;
        while left > 0 {
            let k = 1 + (nx() as u32) % left;
            q.push((k, *m));
            left -= k;
        }
        if nx() % 4 == 0 {
            q.push((0, *m));
        }
    }
    if nx() % 3 == 0 {
        q.push((0, 1.7 * c.m));
    }
    let n = q.len();
    for j in 0..n {
        q.swap(j, nx() % n);
    }
    Cfg { quarks: q, ..c.clone() }
}
/// The same flavours with entries of one mass merged.
fn merged(c: &Cfg) -> Cfg {
    let mut q: Vec<(u32, f64)> = vec![];
    for (n, m) in &c.quarks {
        match q.iter_mut().find(|x| x.1 == *m) {
            Some(x) => x.0 += n,
            None => q.push((*n, *m)),
        }
    }
    Cfg { quarks: q, ..c.clone() }
}
fn c04_multiset(fs: &[&'static Fun], x: &Mix) -> Res {
    let mut hit = false;
    let (b, m) = (relist(&x.c, &x.perm), merged(&x.c));
    for k in &x.ks {
        let f = fs[k % fs.len()];
        hit |= persistent(&x.p, &|p| {
            let a = val(f, p, &x.c);
            let Some(v) = a else { return Ok(false) };
            let t = 2. * tolr(f, p, &x.c, v);
            Ok(same(f, a, val(f, p, &b), t, &format!("changes when {:?} is listed as {:?}", x.c.quarks, b.quarks))?
                | same(f, a, val(f, p, &m), t, &format!("changes when {:?} is listed as {:?}", x.c.quarks, m.quarks))?)
        })?;
    }
    let n: u32 = x.c.quarks.iter().map(|q| q.0).sum();
    Ok(if hit && n > 0 && x.c.quarks != b.quarks { Hit("relisted") } else { Triv("no quarks or same list") })
}
/// inverse(c1 + c2) - inverse(c1) - inverse(c2) + inverse(no quarks) = 0
fn c04_additive(fs: &[&'static Fun], x: &Mix) -> Res {
    let cut = x.perm[0] as usize % (x.c.quarks.len() + 1);
    let part = |q: &[(u32, f64)]| Cfg { quarks: q.to_vec(), ..x.c.clone() };
    let (a, b) = x.c.quarks.split_at(cut);
    let (c1, c2, c0) = (part(a), part(b), part(&[]));
    let mut hit = false;
    for k in &x.ks {
        let f = fs[k % fs.len()];
        hit |= persistent(&x.p, &|p| {
            let (Some(v), Some(v1), Some(v2), Some(v0)) = (val(f, p, &x.c), val(f, p, &c1), val(f, p, &c2), val(f, p, &c0)) else { return Ok(false) };
            let t = 4. * tolr(f, p, &x.c, v) + 1e-11 * (v1.norm() + v2.norm() + v0.norm());
            same(f, Some(v + v0), Some(v1 + v2), t, &format!("is not additive over flavours {a:?} + {b:?}"))?;
            Ok(t < 1e-3 * (v1 - v0).norm().min((v2 - v0).norm()))
        })?;
    }
    Ok(if hit { Hit("two nonempty parts") } else { Triv("one part without effect") })
}
/// Single-mass function with the global numbers of colors and fermions set to those of the configuration.
fn c04_single(fs: &[&'static Fun], x: &Mix) -> Res {
    let _r = Reset;
    let Some(q) = x.c.quarks.first().copied() else { return Ok(Triv("no quarks")) };
    let c = Cfg { quarks: vec![q], ..x.c.clone() };
    let set = |nc: u32, nf: u32| {
        if x.perm[1] % 2 == 0 {
            consts::set_number_of_colors(nc);
            consts::set_number_of_fermions(nf);
        } else {
            consts::set_number_of_fermions(nf);
            consts::set_number_of_colors(nc);
        }
    };
    let mut hit = false;
    for k in &x.ks {
        let f = fs[k % fs.len()];
        let g = fun(f.name.trim_end_matches("_w_field_config"));
        hit |= persistent(&x.p, &|p| {
            let mut p1 = p.clone();
            // vacuum functions take the ratio of quark to gluon mass, thermal ones the mass
            p1.mq = if vac(f) { q.1 / c.m } else { q.1 };
            set(3, 1);
            let Some(v) = val(f, p, &c) else { return Ok(false) };
            set(c.nc, q.0);
            let w = eval(g, &p1, crate::integrands::dummy_cfg());
            let t = 2. * tolr(f, p, &c, v);
            same(f, Some(v), w, t, &format!("with quarks {:?}, nc = {} differs from {} with the same global numbers", c.quarks, c.nc, g.name))
        })?;
    }
    Ok(if hit && q.0 > 0 { Hit("single flavour") } else { Triv("no quarks") })
}
/// Without quarks: the Yang-Mills function (vacuum Yang-Mills at zero temperature).
fn c04_ym(fs: &[&'static Fun], x: &Mix) -> Res {
    let c = Cfg { quarks: if x.perm[0] % 2 == 0 { vec![] } else { vec![(0, 0.3), (0, 1.1)] }, ..x.c.clone() };
    let mut hit = false;
    for k in &x.ks {
        let f = fs[k % fs.len()];
        hit |= persistent(&x.p, &|p| {
            let Some(v) = val(f, p, &c) else { return Ok(false) };
            let b = f.name.trim_end_matches("_w_field_config");
            let t = 2. * tolr(f, p, &c, v);
            let (name, w) = if b.contains("zero_temp") {
                let n = format!("ym::gluon::{}", base(b).replace("_zero_temp", "").replace("_l_", "_").replace("_t_", "_"));
                let g = fun(&n);
                let mut q = p.clone();
                match fam(f.name) {
                    Fam::ZMat => q.om = (0., 0.),
                    Fam::ZMom => q.p = 0.,
                    _ => {}
                }
                let w = eval(g, &q, crate::integrands::dummy_cfg()).map(|w| if b.contains("propagator") { w / (p.m * p.m) } else { w });
                (n, w)
            } else {
                let n = b.replace("qcd::", "ym::").replace("_crossed", "");
                let g = fun(&n);
                let w = eval(g, p, crate::integrands::dummy_cfg());
                (n, w)
            };
            let w = w.map(|w| if fam(f.name) == Fam::ZMat { C::new(w.re, 0.) } else { w });
            same(f, Some(v), w, t, &format!("without quarks differs from {name}"))
        })?;
    }
    Ok(if hit { Hit("no quarks") } else { Triv("below the tolerance") })
}
/// Mass ratios only: vacuum functions depend on the configuration through quark masses over the gluon mass.
fn c04_ratio(fs: &[&'static Fun], x: &Mix) -> Res {
    let k = 0.25 + (x.perm[2] % 1000) as f64 / 250.;
    let b = Cfg { m: x.c.m * k, quarks: x.c.quarks.iter().map(|q| (q.0, q.1 * k)).collect(), ..x.c.clone() };
    let mut hit = false;
    for i in &x.ks {
        let f = fs[i % fs.len()];
        hit |= persistent(&x.p, &|p| {
            let Some(v) = val(f, p, &x.c) else { return Ok(false) };
            same(f, Some(v), val(f, p, &b), 2. * tolr(f, p, &x.c, v), "changes when all masses of the configuration are rescaled")
        })?;
    }
    Ok(if hit && !x.c.quarks.is_empty() { Hit("rescaled") } else { Triv("no quarks") })
}
fn inv(v: Vec<&'static Fun>) -> Vec<&'static Fun> {
    v.into_iter().filter(|f| inverse(f)).collect()
}
fn c04() -> Subs {
    let mut s: Subs = vec![];
    for (nm, is, n, per) in [("vacuum", true, 20000, 4usize), ("thermal", false, 2000, 4)] {
        let big = n * 40;
        let v = funs(is);
        let l = v.len();
        s.push(Box::new(sub(&format!("c04-multiset-{nm}"), (n, big), move || mix(l, per), move |x| c04_multiset(&v, x)).shrink(60)));
        let v = inv(funs(is));
        let l = v.len();
        s.push(Box::new(sub(&format!("c04-additive-{nm}"), (n, big), move || mix(l, per), move |x| c04_additive(&v, x)).shrink(60)));
        let v = funs(is);
        let l = v.len();
        s.push(Box::new(sub(&format!("c04-no-quarks-{nm}"), (n, big), move || mix(l, per), move |x| c04_ym(&v, x)).shrink(60)));
        let v = funs(is);
        let l = v.len();
        s.push(Box::new(sub(&format!("c04-single-{nm}"), (n / 2, big / 2), move || mix(l, per), move |x| c04_single(&v, x)).exclusive().shrink(60)));
    }
    let v = funs(true);
    let l = v.len();
    s.push(Box::new(sub("c04-ratio", (10000, 400000), move || mix(l, 4), move |x| c04_ratio(&v, x))));
    s
}

// ---------------------------------------------------------------- C05
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Nc(u32),
    Nf(u32),
    Mq(f64),
    Eval(usize, usize),
    /// evaluate while another thread keeps changing the settings
    Storm(usize, usize, u32),
}
fn set(o: &Op) {
    match o {
        Op::Nc(n) => consts::set_number_of_colors(*n),
        Op::Nf(n) => consts::set_number_of_fermions(*n),
        Op::Mq(m) => consts::set_default_quark_mass(*m),
        _ => {}
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct H05 {
    ops: Vec<Op>,
    pts: Vec<Pt>,
    cfs: Vec<Cfg>,
}
fn h05(n: usize) -> BS<H05> {
    let op = prop_oneof![
        3 => (1..9u32).prop_map(Op::Nc),
        3 => (0..9u32).prop_map(Op::Nf),
        1 => logu(0.01, 10.).prop_map(Op::Mq),
        6 => (0..n, 0..4usize).prop_map(|(k, i)| Op::Eval(k, i)),
        2 => (0..n, 0..4usize, any::<u32>()).prop_map(|(k, i, r)| Op::Storm(k, i, r)),
    ];
    (prop::collection::vec(op, 1..14), prop::collection::vec(pt(), 1..3), prop::collection::vec(cfg(), 1..3)).prop_map(|(ops, pts, cfs)| H05 { ops, pts, cfs }).boxed()
}
/// Every evaluation of a history must give what it gives on its own with default settings.
fn c05(fs: &[&'static Fun], h: &H05) -> Res {
    let _r = Reset;
    let get = |k: usize, i: usize| {
        let f = fs[k % fs.len()];
        (f, eval(f, &h.pts[i % h.pts.len()], &h.cfs[i / 2 % h.cfs.len()].build()))
    };
    let close = |a: Option<C>, b: Option<C>| match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => (a - b).norm() <= 1e-13 * a.norm() || !a.re.is_finite(),
        _ => false,
    };
    let mut hit = false;
    let mut changed = false;
    let base: Vec<Option<C>> = h.ops.iter().map(|o| if let Op::Eval(k, i) | Op::Storm(k, i, _) = o { get(*k, *i).1 } else { None }).collect();
    for (o, b) in h.ops.iter().zip(&base) {
        match o {
            Op::Eval(k, i) => {
                let (f, v) = get(*k, *i);
                if !close(*b, v) {
                    return Err(format!(
                        "{} = {:?} with default settings but {:?} with nc = {}, nf = {}, default quark mass {}",
                        f.name,
                        b,
                        v,
                        consts::get_number_of_colors(),
                        consts::get_number_of_fermions(),
                        consts::get_default_quark_mass()
                    ));
                }
                hit |= changed;
            }
            Op::Storm(k, i, r) => {
                let stop = AtomicBool::new(false);
                let mut bad = None;
                std::thread::scope(|s| {
                    let stop = &stop;
                    s.spawn(move || {
                        let mut n = *r;
                        while !stop.load(Ordering::Relaxed) {
                            n = n.wrapping_mul(1664525).wrapping_add(1013904223);
                            consts::set_number_of_colors(1 + (n >> 16) % 7);
                            consts::set_number_of_fermions((n >> 20) % 8);
                            consts::set_default_quark_mass(((n >> 12) % 100) as f64 / 10.);
                        }
                    });
                    for _ in 0..6 {
                        let (f, v) = get(*k, *i);
                        if !close(*b, v) {
                            bad = Some(format!("{} = {:?} with default settings but {:?} while another thread changes the settings", f.name, b, v));
                            break;
                        }
                    }
                    stop.store(true, Ordering::Relaxed);
                });
                if let Some(e) = bad {
                    return Err(e);
                }
                hit = true;
            }
            o => {
                set(o);
                changed = true;
            }
        }
    }
    Ok(if hit { Hit("evaluated after settings changed") } else { Triv("no evaluation after a change") })
}
/// The configuration's own number of colors is the one entering each quark contribution: it scales as 1/nc.
fn c05_nc(fs: &[&'static Fun], x: &Mix) -> Res {
    let _r = Reset;
    consts::set_number_of_colors(1 + x.perm[3] % 7);
    consts::set_number_of_fermions(x.perm[4] % 7);
    let n2 = 1 + x.perm[5] % 9;
    let at = |nc: u32, q: bool| Cfg { nc, quarks: if q { x.c.quarks.clone() } else { vec![] }, ..x.c.clone() };
    let mut hit = false;
    for k in &x.ks {
        let f = fs[k % fs.len()];
        hit |= persistent(&x.p, &|p| {
            let (Some(a), Some(b), Some(a0), Some(b0)) = (val(f, p, &at(x.c.nc, true)), val(f, p, &at(n2, true)), val(f, p, &at(x.c.nc, false)), val(f, p, &at(n2, false)))
            else {
                return Ok(false);
            };
            if !a.re.is_finite() {
                return Ok(false);
            }
            let t = (x.c.nc + n2) as f64 * (4. * tolr(f, p, &x.c, a) + 1e-11 * (a.norm() + b.norm() + a0.norm()));
            let d = ((a - a0) * x.c.nc as f64 - (b - b0) * n2 as f64).norm();
            if d.is_nan() || d > t {
                return Err(format!(
                    "quark contribution to {} is {:e} for nc = {} and {:e} for nc = {n2}: not proportional to 1/nc (tolerance {t:e})",
                    f.name,
                    a - a0,
                    x.c.nc,
                    b - b0
                ));
            }
            Ok(t < 1e-2 * (a - a0).norm() && n2 != x.c.nc)
        })?;
    }
    Ok(if hit { Hit("different nc") } else { Triv("no quarks or same nc") })
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C04",
            rule: "a case counts when a configuration with quarks (none for the Yang-Mills relation) was compared with a tolerance below 1e-3 of the value and the two descriptions differ",
            assumptions: &["scales of order one"],
            subs: c04,
            init: None,
        },
        Property {
            id: "C05",
            rule: "a case counts when a function was evaluated after or during a change of the global settings",
            assumptions: &["thread schedules are whatever the operating system produces"],
            subs: || {
                let (v, t) = (funs(true), funs(false));
                let (l, m) = (v.len(), t.len());
                let (vi, ti) = (inv(funs(true)), inv(funs(false)));
                let (li, mi) = (vi.len(), ti.len());
                vec![
                    Box::new(sub("c05-vacuum", (3000, 60000), move || h05(l), move |h| c05(&v, h)).exclusive()),
                    Box::new(sub("c05-thermal", (600, 20000), move || h05(m), move |h| c05(&t, h)).exclusive().shrink(60)),
                    Box::new(sub("c05-own-nc-vacuum", (4000, 100000), move || mix(li, 4), move |x| c05_nc(&vi, x)).exclusive()),
                    Box::new(sub("c05-own-nc-thermal", (600, 20000), move || mix(mi, 4), move |x| c05_nc(&ti, x)).exclusive().shrink(60)),
                ]
            },
            init: None,
        },
    ]
}
