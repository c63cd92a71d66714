//! C30: histories of evaluations and settings changes against evaluations in a fresh process.
use crate::fw::*;
use crate::gens::*;
use crate::pts::*;
use crate::registry::{Fun, FUNS};
use proptest::prelude::*;
use qcd_sme::consts;
use serde::{Deserialize, Serialize};
use std::process::{Command, Stdio};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct St {
    nc: u32,
    nf: u32,
    mq: f64,
    tol: f64,
    it: u32,
    reg: f64,
}
const DEF: St = St { nc: 3, nf: 1, mq: 0.5, tol: 1e-10, it: 50, reg: 1e-5 };
fn set(s: &St) {
    consts::set_number_of_colors(s.nc);
    consts::set_number_of_fermions(s.nf);
    consts::set_default_quark_mass(s.mq);
    consts::set_default_tol_integral(s.tol);
    consts::set_default_max_iter_integral(s.it);
    consts::set_matsubara_reg(s.reg);
}
fn now() -> St {
    St {
        nc: consts::get_number_of_colors(),
        nf: consts::get_number_of_fermions(),
        mq: consts::get_default_quark_mass(),
        tol: consts::get_default_tol_integral(),
        it: consts::get_default_max_iter_integral(),
        reg: consts::get_matsubara_reg(),
    }
}
/// One step: the settings in force (index), a function, a point, a configuration.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Call {
    s: usize,
    f: usize,
    p: usize,
    c: usize,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    st: Vec<St>,
    pts: Vec<Pt>,
    /// near copies of points: (source, argument, relative change)
    near: Vec<(usize, usize, f64)>,
    cfgs: Vec<Cfg>,
    calls: Vec<Call>,
    /// every configuration is built anew where the previous one was
    #[serde(default)]
    slot: bool,
}
fn funs() -> Vec<&'static Fun> {
    FUNS.iter().filter(|f| !f.name.contains("chemical_potential")).collect()
}
fn points(h: &Hist) -> Vec<Pt> {
    let mut v = h.pts.clone();
    for (i, a, x) in &h.near {
        let mut p = h.pts[i % h.pts.len()].clone();
        let k = 1. + x;
        match a % 7 {
            0 => p.om = (p.om.0 * k, p.om.1 * k),
            1 => p.p *= k,
            2 => p.m *= k,
            3 => p.mq *= k,
            4 => p.q *= k,
            5 => p.beta *= k,
            _ => p.mu *= k,
        }
        v.push(p);
    }
    v
}
type Bits = Option<(u64, u64)>;
fn bits(z: Option<crate::ea::C>) -> Bits {
    let n = |x: f64| if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() };
    z.map(|z| (n(z.re), n(z.im)))
}
extern "C" {
    fn fork() -> i32;
    fn pipe(fd: *mut i32) -> i32;
    fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize;
    fn read(fd: i32, b: *mut std::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}
/// Value of `f` computed in a fork of this process; None when it ended abnormally.
fn forked(f: impl FnOnce() -> Bits) -> Option<Bits> {
    unsafe {
        let mut fd = [0i32; 2];
        if pipe(fd.as_mut_ptr()) != 0 {
            return None;
        }
        let pid = fork();
        if pid == 0 {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if let Ok(v) = r {
                let mut b = [0u8; 17];
                if let Some((x, y)) = v {
                    b[0] = 1;
                    b[1..9].copy_from_slice(&x.to_le_bytes());
                    b[9..17].copy_from_slice(&y.to_le_bytes());
                }
                write(fd[1], b.as_ptr().cast(), 17);
            }
            _exit(0);
        }
        close(fd[1]);
        let mut b = [0u8; 17];
        let n = if pid > 0 { read(fd[0], b.as_mut_ptr().cast(), 17) } else { 0 };
        close(fd[0]);
        if pid > 0 {
            let mut st = 0;
            waitpid(pid, &mut st, 0);
        }
        if n != 17 {
            return None;
        }
        let g = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
        Some(if b[0] == 1 { Some((g(1), g(9))) } else { None })
    }
}
/// Runs in a child process of its own: no evaluation has happened before.
pub fn child(arg: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let h: Hist = serde_json::from_str(arg).expect("history");
    let fs = funs();
    let pts = points(&h);
    let eval1 = |c: &Call, cfg: &qcd_sme::qcd::FieldConfig| bits(eval(fs[c.f % fs.len()], &pts[c.p % pts.len()], cfg));
    let st = |c: &Call| &h.st[c.s % h.st.len()];
    // every call on its own in a fresh process
    let mut fresh: Vec<(Call, Option<Bits>)> = vec![];
    for c in &h.calls {
        if !fresh.iter().any(|f| f.0 == *c) {
            let v = forked(|| {
                set(st(c));
                eval1(c, &h.cfgs[c.c % h.cfgs.len()].build())
            });
            fresh.push((c.clone(), v));
        }
    }
    let cfgs: Vec<_> = h.cfgs.iter().map(|c| c.build()).collect();
    let mut slot = cfgs[0].clone();
    let mut n = 0;
    for (i, c) in h.calls.iter().enumerate() {
        let k = c.c % cfgs.len();
        if h.slot {
            slot.quarks.clear();
            slot = h.cfgs[k].build();
        }
        let at = if h.slot { &slot } else { &cfgs[k] };
        let Some(want) = fresh.iter().find(|f| f.0 == *c).and_then(|f| f.1) else { continue };
        set(st(c));
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| eval1(c, at)));
        let sh = |b: Bits| b.map(|z| (f64::from_bits(z.0), f64::from_bits(z.1)));
        let name = fs[c.f % fs.len()].name;
        match got {
            Ok(got) if got == want => n += 1,
            Ok(got) => {
                println!("BAD call {i}: {name} gave {:?} in this history but {:?} in a fresh process with the same settings {:?}", sh(got), sh(want), st(c));
                return;
            }
            Err(_) => {
                println!("BAD call {i}: {name} panicked in this history but gave {:?} in a fresh process", sh(want));
                return;
            }
        }
        if now() != *st(c) {
            println!("BAD call {i}: {name} changed the settings {:?} to {:?}", st(c), now());
            return;
        }
    }
    println!("GOOD {n}");
}
pub fn fresh(h: &Hist) -> Res {
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["hist-child", &serde_json::to_string(h).unwrap()])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .map_err(|e| format!("cannot run the child process: {e}"))?;
    let o = String::from_utf8_lossy(&out.stdout).to_string();
    if let Some(m) = o.lines().find_map(|l| l.strip_prefix("BAD ")) {
        return Err(m.into());
    }
    match o.lines().find_map(|l| l.strip_prefix("GOOD ")).and_then(|n| n.trim().parse::<usize>().ok()) {
        Some(n) if n > 1 => Ok(Hit(if h.st.len() > 1 { "settings changed" } else { "settings fixed" })),
        Some(_) => Ok(Triv("at most one call")),
        None => Err(format!("child process ended abnormally ({}): {o}", out.status)),
    }
}
fn st() -> BS<St> {
    (1..7u32, 0..6u32, uni(0.3, 0.9), prop_oneof![1 => Just(None), 3 => (logu(1e-7, 1e-3), 4..14u32).prop_map(Some)], logu(1e-5, 0.05), 0..8u32)
        .prop_map(|(nc, nf, mq, ti, reg, k)| {
            let (tol, it) = ti.unwrap_or((DEF.tol, DEF.it));
            match k {
                0 => DEF,
                // a single setting differs from the defaults
                1 => St { nc, ..DEF },
                2 => St { nf, ..DEF },
                3 => St { tol, it, ..DEF },
                4 => St { reg, ..DEF },
                _ => St { nc, nf, mq, tol, it, reg },
            }
        })
        .boxed()
}
/// Histories dwell on few functions, so that state kept by one of them is met again.
pub fn hist() -> BS<Hist> {
    let n = funs().len();
    let integrated: Vec<usize> = (0..n).filter(|&i| funs()[i].name.contains("thermal") && !funs()[i].args.contains(&"q")).collect();
    let configured: Vec<usize> = integrated.iter().cloned().filter(|&i| funs()[i].name.contains("w_field_config")).collect();
    let fsel = prop_oneof![1 => 0..n, 2 => prop::sample::select(integrated), 1 => prop::sample::select(configured)];
    // the second configuration often shares something with the first
    let cfgs = (cfg(), prop::option::of((cfg(), 0..6u32))).prop_map(|(a, b)| match b {
        None => vec![a],
        Some((mut b, k)) => {
            match k {
                0 => b.quarks = a.quarks.clone(),
                1 => b = Cfg { nc: b.nc, ..a.clone() },
                2 | 3 => b.m = a.m,
                4 => b = Cfg { quarks: a.quarks.iter().map(|q| (q.0 + 1, q.1)).collect(), ..a.clone() },
                _ => {}
            }
            vec![a, b]
        }
    });
    (
        prop::collection::vec(st(), 1..4),
        prop::collection::vec(pt(), 1..3),
        prop::collection::vec((0..2usize, 0..7usize, sgnd(logu(1e-15, 1e-3))), 0..3),
        cfgs,
        prop::collection::vec(fsel, 1..5),
        prop::collection::vec((0..3usize, 0..4usize, 0..4usize, 0..2usize), 2..16),
        any::<bool>(),
    )
        .prop_map(|(st, pts, near, cfgs, sel, calls, slot)| {
            let calls = calls.into_iter().map(|(s, f, p, c)| Call { s: s % st.len(), f: sel[f % sel.len()], p: p % (pts.len() + near.len()), c: c % cfgs.len() }).collect();
            Hist { st, pts, near, cfgs, calls, slot }
        })
        .boxed()
}
