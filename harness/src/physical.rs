//! C29: the physical_tc program end to end. It is run in a scratch directory on generated configuration files,
//! with a stand-in for matplotlib which records what is plotted.
use crate::fw::*;
use crate::gens::*;
use proptest::prelude::*;
use qcd_sme::qcd::FieldConfig;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use tc_long_prop::more_masses::*;

type Grid = (f64, f64, f64);
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conf {
    mg: f64,
    om: f64,
    renpoint: f64,
    mq: [f64; 3],
    mqc: [f64; 3],
    f0: f64,
    fewtemps: Grid,
    moretemps: Grid,
    manytemps: Grid,
    fewchempots: Grid,
    morechempots: Grid,
    manychempots: Grid,
    momenta: Grid,
    /// the configuration is found under its default name, not passed
    #[serde(default)]
    unnamed: bool,
}
impl Conf {
    fn yaml(&self) -> String {
        let g = |g: &Grid| format!("[{:?}, {:?}, {:?}]", g.0, g.1, g.2);
        let a = |g: &[f64; 3]| format!("[{:?}, {:?}, {:?}]", g[0], g[1], g[2]);
        format!(
            "mg: {:?}\nom: {:?}\nrenpoint: {:?}\nmq: {}\nmqc: {}\nf0: {:?}\nfewtemps: {}\nmoretemps: {}\nmanytemps: {}\nfewchempots: {}\nmorechempots: {}\nmanychempots: {}\nmomenta: {}\n",
            self.mg, self.om, self.renpoint, a(&self.mq), a(&self.mqc), self.f0, g(&self.fewtemps), g(&self.moretemps), g(&self.manytemps), g(&self.fewchempots),
            g(&self.morechempots), g(&self.manychempots), g(&self.momenta)
        )
    }
    fn numbers(&self) -> Vec<f64> {
        let mut v = vec![self.mg, self.om, self.renpoint];
        v.extend(self.mq);
        v.extend(self.mqc);
        v.push(self.f0);
        for g in [self.fewtemps, self.moretemps, self.manytemps, self.fewchempots, self.morechempots, self.manychempots, self.momenta] {
            v.extend([g.0, g.1, g.2]);
        }
        v
    }
}
/// Points of a grid (min, max, step).
fn grid(g: Grid) -> Vec<f64> {
    let mut v = vec![];
    let mut k = 0;
    while g.0 + g.2 * k as f64 <= g.1 + g.2 * 0.5 {
        v.push(g.0 + g.2 * k as f64);
        k += 1;
    }
    v
}
/// A phase: which quarks and which renormalization constant.
struct Phase {
    cfg: FieldConfig,
    f0: f64,
}
fn phase(c: &Conf, m: &[f64; 3]) -> Phase {
    let quarks = vec![(2, m[0]), (1, m[1])];
    // the additive constant which makes the high-momentum limit independent of the quark masses
    let f0 = c.f0 + quarks.iter().map(|(n, q): &(u32, f64)| *n as f64 / 3. * 4. / 9. * (c.mg / q).ln()).sum::<f64>();
    Phase { cfg: FieldConfig::new(3, c.mg, quarks), f0 }
}
fn prop(c: &Conf, ph: &Phase, long: bool, mu: f64, t: f64, p: f64) -> f64 {
    let d = |p: f64| {
        if t == 0. {
            if long {
                propagator_l_zero_temp_landau(c.om, p, mu, ph.f0, &ph.cfg).re
            } else {
                propagator_t_zero_temp_landau(c.om, p, mu, ph.f0, &ph.cfg).re
            }
        } else {
            let beta = 1. / (t * c.mg);
            if long {
                propagator_l_landau(c.om, p, beta, mu, ph.f0, &ph.cfg).re
            } else {
                propagator_t_landau(c.om, p, beta, mu, ph.f0, &ph.cfg).re
            }
        }
    };
    // m^2 D(p), normalized to m^2/renpoint^2 at the renormalization point
    c.mg * c.mg * d(p * c.mg) / (c.renpoint * c.renpoint * d(c.renpoint))
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-6 * (1. + b.abs())
}
fn deconfined(mu: f64, t: f64, pb: &[(f64, f64)]) -> Option<bool> {
    if mu > pb[pb.len() - 1].0 {
        return Some(true);
    }
    if let Some(p) = pb.iter().find(|p| p.0 == mu) {
        return Some(t > p.1);
    }
    let w = pb.windows(2).find(|w| w[0].0 < mu && mu < w[1].0)?;
    let tc = w[0].1 + (w[1].1 - w[0].1) * (mu - w[0].0) / (w[1].0 - w[0].0);
    if (t - tc).abs() < 1e-9 || pb.iter().any(|p| (p.0 - mu).abs() < 1e-9) {
        return None; // decided by rounding
    }
    Some(t > tc)
}
/// Critical temperatures by maximization; None when the maximum is not clear.
fn critical(c: &Conf, pick: &dyn Fn(f64, f64) -> Option<usize>, phases: &[Phase; 2]) -> Option<Vec<f64>> {
    let ts = grid(c.manytemps);
    grid(c.manychempots)
        .iter()
        .map(|&mu| {
            let v: Option<Vec<f64>> = ts.iter().map(|&t| Some(prop(c, &phases[pick(mu, t)?], true, mu, t, c.momenta.0))).collect();
            let v = v?;
            let best = v.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            let near_best = v.iter().filter(|x| best - **x < 1e-6 * best.abs()).count();
            (near_best == 1).then(|| ts[v.iter().position(|x| *x == best).unwrap()])
        })
        .collect()
}
const STUB: &str = r#"
import json
_calls = []
def plot(x, y, *a, **k): _calls.append([[float(v) for v in x], [float(v) for v in y]])
scatter = plot
def savefig(path, *a, **k):
    global _calls
    with open(path + '.json', 'w') as f: json.dump(_calls, f)
    _calls = []
def figure(*a, **k):
    global _calls
    _calls = []
def __getattr__(n):
    if n.startswith('__'): raise AttributeError(n)
    return lambda *a, **k: None
"#;
fn table(s: &str) -> Option<Vec<(f64, f64)>> {
    s.lines().map(|l| l.split_once('\t').and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?)))).collect()
}
type Curves = Vec<(Vec<f64>, Vec<f64>)>;

struct Out {
    dir: PathBuf,
}
impl Drop for Out {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
fn execute(c: &Conf) -> Result<Out, String> {
    static N: AtomicUsize = AtomicUsize::new(0);
    let home = std::env::var("QSV_HOME").unwrap_or("/verif".into());
    let base = std::env::var("QSV_WORK").map(PathBuf::from).unwrap_or_else(|_| Path::new(&home).join("work/replay"));
    let dir = base.join(format!("tc-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    let e = |e: std::io::Error| e.to_string();
    std::fs::create_dir_all(dir.join("py/matplotlib")).map_err(e)?;
    let o = Out { dir };
    std::fs::write(o.dir.join("py/matplotlib/__init__.py"), "").map_err(e)?;
    std::fs::write(o.dir.join("py/matplotlib/pyplot.py"), STUB).map_err(e)?;
    let name = if c.unnamed { "config.yml" } else { "in.yml" };
    std::fs::write(o.dir.join(name), c.yaml()).map_err(e)?;
    let args: &[&str] = if c.unnamed { &[] } else { &[name] };
    let out = Command::new(Path::new(&home).join("target/release/physical_tc"))
        .args(args)
        .current_dir(&o.dir)
        .env("PYTHONPATH", o.dir.join("py"))
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .env("RAYON_NUM_THREADS", "2")
        .env("RUST_LOG", "off")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .map_err(e)?;
    if !out.status.success() {
        let s = String::from_utf8_lossy(&out.stderr);
        return Err(format!("physical_tc failed ({}): {}", out.status, s.chars().take(600).collect::<String>()));
    }
    Ok(o)
}
fn c29(c: &Conf) -> Res {
    let phases = [phase(c, &c.mq), phase(c, &c.mqc)];
    let mus = grid(c.manychempots);
    let Some(tcs) = critical(c, &|_, _| Some(0), &phases) else { return Ok(Triv("no clear maximum")) };
    if tcs[0] == 0. {
        return Ok(Triv("no confined phase at the smallest chemical potential"));
    }
    let full: Vec<(f64, f64)> = mus.iter().cloned().zip(tcs.iter().cloned()).collect();
    let pb: Vec<(f64, f64)> = full.iter().cloned().take_while(|p| p.1 != 0.).collect();
    if pb.len() < 9 {
        return Ok(Triv("fewer points than parameters of the fit"));
    }
    let corrected = |mu: f64, t: f64| deconfined(mu, t, &pb).map(|d| d as usize);
    let ctcs = critical(c, &corrected, &phases);

    let o = execute(c)?;
    let base = o.dir.join("target/tc_long_prop/physical_tc");
    let read = |n: &str| std::fs::read_to_string(base.join(n)).map_err(|_| format!("{n} was not written"));
    let curves = |n: &str| -> Result<Curves, String> { serde_json::from_str(&read(&format!("{n}.json"))?).map_err(|e| format!("plot {n}: {e}")) };

    // the configuration which is echoed
    let nums: Vec<f64> = read("config.yml")?.split(|ch: char| ch.is_whitespace() || ch == ',' || ch == '[' || ch == ']').filter_map(|w| w.parse().ok()).collect();
    if nums != c.numbers() {
        return Err(format!("config.yml echoes {nums:?} instead of {:?}", c.numbers()));
    }
    // propagators
    let mom = grid(c.momenta);
    let mut files = BTreeSet::new();
    let (mut unclear, mut dec) = (0, 0);
    for cor in [false, true] {
        for long in [true, false] {
            let name = if cor { "nf_2+1_corrected" } else { "nf_2+1" };
            for &mu in &grid(c.fewchempots) {
                let plot = curves(&format!("{name}{}_mu_{mu:.4}.png", if long { "" } else { "_transverse" }))?;
                let ts = grid(c.fewtemps);
                if plot.len() != ts.len() {
                    return Err(format!("{} curves for {} temperatures in the plot of {name} at mu = {mu}", plot.len(), ts.len()));
                }
                for (i, &t) in ts.iter().enumerate() {
                    let f = format!("{name}_{}_t_{t:.4}_mu_{mu:.4}.out", if long { "glulongprop" } else { "glutransprop" });
                    files.insert(f.clone());
                    let tab = table(&read(&format!("data/{f}"))?).ok_or(format!("{f} is not a table"))?;
                    if tab.len() != mom.len() || tab.iter().zip(&mom).any(|(a, b)| !near(a.0, *b)) {
                        return Err(format!("momenta of {f} are {:?} instead of {mom:?}", tab.iter().map(|x| x.0).collect::<Vec<_>>()));
                    }
                    if plot[i].0.len() != mom.len() || plot[i].1.iter().ne(tab.iter().map(|x| &x.1)) {
                        return Err(format!("curve {i} of the plot of {name} at mu = {mu} is not the content of {f}"));
                    }
                    let ph = if cor {
                        match corrected(mu, t) {
                            Some(k) => {
                                dec += k;
                                &phases[k]
                            }
                            None => {
                                unclear += 1;
                                continue;
                            }
                        }
                    } else {
                        &phases[0]
                    };
                    for (p, v) in tab {
                        let want = prop(c, ph, long, mu, t, p);
                        if !near(v, want) {
                            return Err(format!("{f} at p/m = {p}: {v} instead of {want} (boundary {pb:?})"));
                        }
                    }
                }
            }
        }
    }
    let written: BTreeSet<String> = std::fs::read_dir(base.join("data")).map_err(|e| e.to_string())?.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect();
    if written != files {
        return Err(format!("propagator files {:?}", written.symmetric_difference(&files).collect::<Vec<_>>()));
    }
    // infrared limit
    let (ts, ms) = (grid(c.moretemps), grid(c.morechempots));
    let ir = curves("ir_nf_2+1.png")?;
    if ir.len() != ms.len() {
        return Err(format!("{} infrared curves for {} chemical potentials", ir.len(), ms.len()));
    }
    for (cv, &mu) in ir.iter().zip(&ms) {
        if cv.0.len() != ts.len() || cv.1.len() != ts.len() {
            return Err("infrared curve of another length than the temperatures".into());
        }
        for ((&t, &x), &v) in ts.iter().zip(&cv.0).zip(&cv.1) {
            let want = prop(c, &phases[0], true, mu, t, c.momenta.0);
            if !near(x, t) || !near(v, want) {
                return Err(format!("infrared limit at mu = {mu}, T/m = {x}: {v} instead of {want} at {t}"));
            }
        }
    }
    // phase diagrams
    for (name, tcs) in [("nf_2+1", Some(&tcs)), ("nf_2+1_corrected", ctcs.as_ref())] {
        let Some(tcs) = tcs else {
            unclear += 1;
            continue;
        };
        let pl = curves(&format!("tc_{name}.png"))?;
        let got = pl.first().ok_or("empty plot")?;
        if got.1.len() != tcs.len() || got.1.iter().zip(tcs).any(|(a, b)| (a - b).abs() > 1e-9) || got.0.iter().zip(&mus).any(|(a, b)| !near(*a, *b)) {
            return Err(format!("critical temperatures of {name} at {:?} are {:?} instead of {tcs:?} at {mus:?}", got.0, got.1));
        }
        let tab = table(&read(&format!("tc_{name}.out"))?).ok_or("tc is not a table")?;
        if tab.len() != tcs.len() || tab.iter().zip(mus.iter().zip(tcs)).any(|(a, b)| (a.0 - b.0).abs() > 6e-5 || (a.1 - b.1).abs() > 6e-5) {
            return Err(format!("tc_{name}.out is {tab:?} instead of {tcs:?} at {mus:?}"));
        }
        let tab = table(&read(&format!("tcd2_{name}.out"))?).ok_or("tcd2 is not a table")?;
        let h = 2. * (mus[1] - mus[0]);
        let want: Vec<(f64, f64)> = (2..mus.len() - 2).map(|i| (mus[i], (tcs[i + 2] - 2. * tcs[i] + tcs[i - 2]) / (h * h))).collect();
        if tab.len() != want.len() || tab.iter().zip(&want).any(|(a, b)| !near(a.0, b.0) || (a.1 - b.1).abs() > 1e-6 * (1. + 1. / (h * h))) {
            return Err(format!("second derivatives of {name} are {tab:?} instead of {want:?}"));
        }
        let pl = curves(&format!("tcd2_{name}.png"))?;
        if pl.len() != 1 || pl[0].1.len() != want.len() || pl[0].1.iter().zip(&tab).any(|(a, b)| *a != b.1) {
            return Err(format!("the plot of the second derivatives of {name} is not its table"));
        }
    }
    // polynomial fit of the (uncorrected, reduced) boundary
    let s = read("tc_nf_2+1_corrected_fit_parameters.out")?;
    let fit: Vec<f64> = serde_json::from_str(s.trim()).map_err(|e| format!("fit parameters {s:?}: {e}"))?;
    if fit.len() != 9 {
        return Err(format!("{} parameters of a polynomial of degree 8", fit.len()));
    }
    let own = parametrize_phase_boundary(&pb, 8, None);
    let h = |f: &[f64], x: f64| f.iter().rev().fold(0., |a, b| a * x + b);
    for p in &pb {
        if (h(&fit, p.0) - h(&own, p.0)).abs() > 1e-6 {
            return Err(format!("the fit is {} at mu = {} instead of {}", h(&fit, p.0), p.0, h(&own, p.0)));
        }
    }
    Ok(if unclear > 0 {
        Hit("phase of some points decided by rounding")
    } else if dec > 0 && pb.len() < full.len() {
        Hit("both phases, reduced boundary")
    } else if dec > 0 {
        Hit("both phases")
    } else {
        Hit("confined phase")
    })
}
fn conf() -> BS<Conf> {
    let g = |n: std::ops::Range<u32>, hi: f64| (n, Just(hi)).prop_map(|(n, hi)| (n, hi));
    let q = || [uni(0.2, 0.8), uni(0.2, 0.8), uni(0.5, 2.)];
    let qc = || [uni(0.08, 0.8), uni(0.08, 0.8), uni(0.5, 2.)];
    (
        (uni(0.4, 1.), logu(1e-5, 1e-2), uni(1.5, 6.), q(), qc(), uni(-0.9, 0.3)),
        (g(1..4, 0.), g(1..5, 0.), g(7..22, 0.)),
        (uni(0.12, 0.4), uni(0.12, 0.3), uni(0.15, 0.4)),
        (g(0..4, 0.), g(1..4, 0.), g(12..26, 0.)),
        (uni(0.3, 1.), uni(0.3, 1.), prop_oneof![3 => uni(0.25, 0.6), 1 => uni(0.6, 1.3)], prop_oneof![3 => Just(0.), 1 => uni(0., 0.2)]),
        (uni(0.01, 0.3), 1..5u32, uni(0.1, 1.)),
        (0..8u32, prop_oneof![3 => Just(false), 1 => Just(true)]),
    )
        .prop_map(|((mg, om, renpoint, mut mq, mut mqc, f0), (n1, n2, n3), (t1, t2, t3), (k1, k2, k3), (m1, m2, m3, mu0), (p0, np, dp), (same, unnamed))| {
            // some masses coincide
            match same {
                0 => mqc[0] = mq[0],
                1 => mqc = mq,
                2 => mq[1] = mq[0],
                3 => mqc[1] = mqc[0],
                _ => {}
            }
            let gr = |lo: f64, w: f64, n: u32| {
                // round numbers, as a person would write
                let d = (w / n.max(1) as f64 * 1e4).round() / 1e4;
                (lo, lo + d * n as f64, d)
            };
            let mu0 = (mu0 * 100_f64).round() / 100.;
            Conf {
                mg,
                om,
                renpoint,
                mq,
                mqc,
                f0,
                fewtemps: gr(0., t1, n1.0),
                moretemps: gr(0., t2, n2.0),
                manytemps: gr(0., t3, n3.0),
                fewchempots: gr(mu0, m1, k1.0),
                morechempots: gr(mu0, m2, k2.0),
                manychempots: gr(mu0, m3, k3.0),
                momenta: gr(p0, dp * np as f64, np),
                unnamed,
            }
        })
        .boxed()
}
pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C29",
        rule: "a case counts when the configuration has a clear critical temperature at its smallest chemical potential and every output of the program was compared",
        assumptions: &["temperature grids start at zero, chemical potential grids start at the same value and have the boundary has at least nine points (parameters of the fit)", "matplotlib is replaced by a recording stand-in"],
        subs: || vec![Box::new(sub("c29-physical-tc", (64, 2000), conf, c29).shrink(25))],
        init: None,
    }]
}
