//! C26, C27, C28: phase boundaries and critical temperatures.
use crate::fw::*;
use crate::gens::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tc_long_prop::prelude::*;

type Pb = Vec<(f64, f64)>;
/// Piecewise-linear interpolation, written against the definition: `None` beyond the last point.
fn interp(pb: &[(f64, f64)], mu: f64) -> Option<f64> {
    if let Some(p) = pb.iter().find(|p| p.0 == mu) {
        return Some(p.1);
    }
    let w = pb.windows(2).find(|w| w[0].0 < mu && mu < w[1].0)?;
    let x = (mu - w[0].0) / (w[1].0 - w[0].0);
    Some(w[0].1 * (1. - x) + w[1].1 * x)
}
fn prefix(pb: &[(f64, f64)]) -> Pb {
    let mut v = vec![];
    for p in pb {
        if p.1 == 0. {
            break;
        }
        v.push(*p);
    }
    v
}

// ---------------------------------------------------------------- C26
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Boundary {
    pb: Pb,
    /// (mu, T) with what is known about them
    mu: f64,
    t: f64,
}
fn c26_float(b: &Boundary) -> Res {
    let red = prefix(&b.pb);
    let (first, last) = (red[0].0, red[red.len() - 1].0);
    if b.mu < first {
        return match guarded(|| is_deconfined_phase(b.mu, b.t, &b.pb)) {
            Ok(r) => Err(format!("classified ({}, {}) as {r} below the smallest chemical potential of the boundary", b.mu, b.t)),
            Err(_) => Ok(Hit("below the boundary: rejected")),
        };
    }
    let got = is_deconfined_phase(b.mu, b.t, &b.pb);
    if got != is_deconfined_phase(b.mu, b.t, &red) {
        return Err("the reduced boundary classifies differently".into());
    }
    let (want, class) = match interp(&red, b.mu) {
        None => (true, "beyond the largest chemical potential"),
        Some(tc) => {
            let exact = red.iter().any(|p| p.0 == b.mu);
            if !exact && (b.t - tc).abs() <= 1e-12 * (tc.abs() + red.iter().fold(0., |a: f64, p| a.max(p.1))) {
                return Ok(Triv("within rounding of the boundary"));
            }
            (b.t > tc, if exact { "at a vertex" } else if b.t > tc { "above" } else { "below" })
        }
    };
    if got != want {
        return Err(format!("({}, {}) classified deconfined = {got}, boundary up to mu = {last}", b.mu, b.t));
    }
    Ok(Hit(class))
}
/// mus and Ts are multiples of 1/64 and segments have power-of-two length, so that interpolation is exact.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dyadic {
    mu0: u32,
    t0: u32,
    /// (log2 of the length, temperature step per 1/64)
    seg: Vec<(u32, i32)>,
    /// position along the boundary and offset in T
    at: u32,
    off: i32,
    zeros: u32,
}
fn c26_dyadic(d: &Dyadic) -> Res {
    let mut pts: Vec<(i64, i64)> = vec![(d.mu0 as i64, 4096 + d.t0 as i64)];
    for (l, s) in &d.seg {
        let p = pts[pts.len() - 1];
        let n = 1i64 << l;
        let t = p.1 + n * *s as i64;
        if t <= 0 {
            break;
        }
        pts.push((p.0 + n, t));
    }
    let f = |x: i64| x as f64 / 64.;
    let mut pb: Pb = pts.iter().map(|p| (f(p.0), f(p.1))).collect();
    let (first, last) = (pts[0].0, pts[pts.len() - 1].0);
    for k in 0..d.zeros {
        pb.push((f(last + 1 + k as i64), if k == 1 { 7. } else { 0. }));
    }
    let mu = first + d.at as i64 % (last - first + 3);
    let (t, want) = if mu > last {
        (d.off.unsigned_abs() as i64, true)
    } else {
        let mut tc = pts[0].1;
        for w in pts.windows(2) {
            if w[0].0 <= mu && mu <= w[1].0 {
                tc = w[0].1 + (w[1].1 - w[0].1) / (w[1].0 - w[0].0) * (mu - w[0].0);
            }
        }
        ((tc + d.off as i64).max(0), d.off > 0 && tc + d.off as i64 > 0)
    };
    let got = is_deconfined_phase(f(mu), f(t), &pb);
    if got != want {
        return Err(format!("({}, {}) classified deconfined = {got} with boundary {pb:?}", f(mu), f(t)));
    }
    Ok(Hit(if mu > last { "beyond" } else if d.off == 0 { "on the boundary" } else { "off the boundary" }))
}
fn c26_reduce(pb: &Pb) -> Res {
    let want = prefix(pb);
    let got = reduce_phase_boundary(pb);
    if got != want.as_slice() {
        return Err(format!("reduced to {got:?} instead of {want:?}"));
    }
    if reduce_phase_boundary(got) != got {
        return Err("reduction is not idempotent".into());
    }
    Ok(if want.len() < pb.len() { Hit("reduced") } else { Triv("nothing to reduce") })
}
fn boundary() -> BS<Pb> {
    let step = prop_oneof![3 => uni(0.01, 0.3), 1 => Just(0.1), 1 => logu(1e-6, 1e3)];
    let temp = prop_oneof![3 => uni(0.01, 1.), 1 => logu(1e-6, 1e3), 1 => prop::sample::select(vec![0.25, 0.5])];
    (prop_oneof![2 => Just(0.), 1 => uni(0., 1.)], prop::collection::vec((step, temp), 1..12), 0..4usize, any::<bool>(), any::<bool>())
        .prop_map(|(mu0, v, z, mono, neg)| {
            let mut mu = mu0;
            let mut pb: Pb = v
                .iter()
                .map(|(s, t)| {
                    let p = (mu, *t);
                    mu += s;
                    p
                })
                .collect();
            if mono {
                let mut ts: Vec<f64> = pb.iter().map(|p| p.1).collect();
                ts.sort_by(|a, b| b.total_cmp(a));
                pb.iter_mut().zip(ts).for_each(|(p, t)| p.1 = t);
            }
            for k in 0..z {
                pb.push((mu, if k == 1 { 0.3 } else if neg { -0. } else { 0. }));
                mu += 0.1;
            }
            pb
        })
        .boxed()
}
fn classified() -> BS<Boundary> {
    (boundary(), any::<prop::sample::Index>(), uni(-0.2, 1.3), prop_oneof![3 => uni(0., 2.), 2 => uni(0.99, 1.01), 1 => Just(0.), 2 => Just(1.)], 0..4u8)
        .prop_map(|(pb, i, x, y, kind)| {
            let n = prefix(&pb).len();
            let (a, b) = (pb[0].0, pb[n - 1].0);
            let mu = match kind {
                0 => pb[i.index(n)].0,
                1 => f64::from_bits(pb[i.index(n)].0.to_bits() + 1),
                2 if i.index(n) + 1 < n => (pb[i.index(n)].0 + pb[i.index(n) + 1].0) / 2.,
                _ => a + (b - a + 0.01) * x,
            };
            // temperatures around the boundary, at one of its vertices or anywhere
            let tc = interp(&pb[..n], mu).unwrap_or(0.5);
            let t = if kind == 3 && y == 1. { pb[i.index(n)].1 } else { tc * y };
            Boundary { mu: mu.max(0.), t, pb }
        })
        .boxed()
}

// ---------------------------------------------------------------- C27
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Max {
    ts: Vec<f64>,
    ds: Vec<f64>,
    extra: Vec<f64>,
}
fn c27(m: &Max) -> Res {
    let best = m.ds.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let at = m.ds.iter().position(|d| *d == best).unwrap();
    let want = m.ts[at];
    let got = find_critical_temperature(&m.ts, &m.ds);
    if got != want {
        return Err(format!("critical temperature {got} instead of {want} (entry {at})"));
    }
    // increasing transformations
    let tr: Vec<f64> = m.ds.iter().map(|d| d * 4. - 1e-9).collect();
    if tr.iter().zip(&m.ds).all(|(x, d)| (*x == best * 4. - 1e-9) == (*d == best)) && find_critical_temperature(&m.ts, &tr) != want {
        return Err("not invariant under an increasing transformation of the values".into());
    }
    // appended smaller or equal values
    let (mut ts, mut ds) = (m.ts.clone(), m.ds.clone());
    for (i, e) in m.extra.iter().enumerate() {
        ts.push(1e3 + i as f64);
        ds.push(best - e.abs());
    }
    if find_critical_temperature(&ts, &ds) != want {
        return Err("appending values which are not larger changes the critical temperature".into());
    }
    Ok(if m.ds.iter().filter(|d| **d == best).count() > 1 { Hit("ties") } else if m.ds.len() > 1 { Hit("unique maximum") } else { Triv("one point") })
}
fn maxes() -> BS<Max> {
    let val = prop_oneof![3 => uni(-2., 2.), 3 => (-3..3i32).prop_map(|x| x as f64), 1 => logu(1e-300, 1e300), 1 => sgnd(logu(1e-300, 1e-3))];
    (prop::collection::vec((uni(0., 1.), val), 1..40), prop::collection::vec(prop_oneof![Just(0.), uni(0., 2.)], 0..4), 0..3u8)
        .prop_map(|(v, extra, ord)| {
            let (mut ts, ds): (Vec<f64>, Vec<f64>) = v.into_iter().unzip();
            match ord {
                0 => ts.sort_by(f64::total_cmp),
                1 => ts.sort_by(|a, b| b.total_cmp(a)),
                _ => {}
            }
            Max { ts, ds, extra }
        })
        .boxed()
}

// ---------------------------------------------------------------- C28
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fit {
    n: usize,
    w: f64,
    /// positions in units of the grid step, offset from the regular grid
    x: Vec<f64>,
    c: Vec<f64>,
    noise: Vec<f64>,
    perm: Vec<u32>,
    tail: usize,
}
fn horner(c: &[f64], x: f64) -> f64 {
    c.iter().rev().fold(0., |a, b| a * x + b)
}
fn points(f: &Fit, noise: f64) -> Pb {
    let k = f.x.len();
    let mut pb: Pb = (0..k)
        .map(|i| {
            let mu = f.w * (i as f64 + f.x[i]) / (k.max(2) - 1) as f64;
            (mu.max(0.), horner(&f.c, mu.max(0.)) + noise * f.noise[i % f.noise.len()])
        })
        .filter(|p| p.1 != 0.)
        .collect();
    pb.dedup_by(|a, b| a.0 == b.0);
    pb
}
fn c28_recover(f: &Fit) -> Res {
    let pb = points(f, 0.);
    if pb.len() < f.n + 1 {
        return Ok(Triv("too few points"));
    }
    let fit = parametrize_phase_boundary(&pb, f.n, None);
    if fit.len() != f.n + 1 {
        return Err(format!("{} parameters for degree {}", fit.len(), f.n));
    }
    // coefficients: conditioning of the monomials over the sampled width
    let tol = |k: usize| 1e-9 * 30f64.powi(f.n as i32 / 2) / f.w.powi(k as i32).min(1.);
    for k in 0..=f.n {
        if (fit[k] - f.c[k]).abs() > tol(k) || fit[k].is_nan() {
            return Err(format!("coefficient {k} of the fit is {} instead of {} (tolerance {:e})", fit[k], f.c[k], tol(k)));
        }
    }
    for p in &pb {
        let v = horner(&fit, p.0);
        if (v - p.1).abs() > 1e-8 {
            return Err(format!("the fitted polynomial is {v} at mu = {} where the boundary is {}", p.0, p.1));
        }
    }
    // any order of the points
    let mut q: Vec<(u32, (f64, f64))> = pb.iter().enumerate().map(|(i, p)| (f.perm[i % f.perm.len()] ^ (i as u32), *p)).collect();
    q.sort_by_key(|x| x.0);
    let q: Pb = q.into_iter().map(|x| x.1).collect();
    let other = parametrize_phase_boundary(&q, f.n, None);
    for k in 0..=f.n {
        if (other[k] - f.c[k]).abs() > tol(k) || other[k].is_nan() {
            return Err(format!("coefficient {k} depends on the order of the points: {} instead of {}", other[k], f.c[k]));
        }
    }
    Ok(Hit(if f.n > 3 { "high degree" } else { "low degree" }))
}
/// For any boundary the fit is the least-squares one: residuals are orthogonal to every monomial;
/// what follows the first zero temperature is ignored.
fn c28_least_squares(f: &Fit) -> Res {
    let pb = points(f, 0.3);
    if pb.len() < f.n + 1 {
        return Ok(Triv("too few points"));
    }
    let fit = parametrize_phase_boundary(&pb, f.n, None);
    let k = pb.len() as f64;
    for d in 0..=f.n {
        let r: f64 = pb.iter().map(|p| (p.1 - horner(&fit, p.0)) * (p.0 / f.w).powi(d as i32)).sum();
        if r.abs() > 1e-6 * k || r.is_nan() {
            return Err(format!("residuals are not orthogonal to the monomial of degree {d}: {r:e}"));
        }
    }
    let mut long = pb.clone();
    for i in 0..f.tail {
        long.push((2. + i as f64, if i == 0 { 0. } else { 0.7 * i as f64 }));
    }
    let fit2 = parametrize_phase_boundary(&long, f.n, None);
    if fit2.iter().zip(&fit).any(|(a, b)| (a - b).abs() > 1e-9 * (1. + b.abs())) {
        return Err("points after the first zero temperature change the fit".into());
    }
    Ok(Hit(if pb.len() == f.n + 1 { "interpolation" } else { "fit" }))
}
fn fits() -> BS<Fit> {
    (0..9usize, uni(0.5, 1.2), prop::collection::vec(sgnd(uni(0.02, 1.)), 9), 0..5usize)
        .prop_flat_map(|(n, w, c, tail)| {
            let k = (n + 1)..(n + 30);
            (Just(n), Just(w), Just(c), prop::collection::vec(uni(-0.3, 0.3), k), prop::collection::vec(uni(-1., 1.), 1..20), prop::collection::vec(0..64u32, 1..40), Just(tail))
        })
        .prop_map(|(n, w, mut c, x, noise, perm, tail)| {
            c.truncate(n + 1);
            Fit { n, w, x, c, noise, perm, tail }
        })
        .boxed()
}
fn dyadic() -> BS<Dyadic> {
    let seg = (0..5u32, prop_oneof![2 => Just(0), 2 => -40..0i32, 1 => -5..6i32]);
    (prop_oneof![Just(0), 0..100u32], 0..500u32, prop::collection::vec(seg, 0..8), 0..200u32, prop_oneof![3 => Just(0), 2 => -5..6i32, 1 => -5000..5000i32], 0..4u32)
        .prop_map(|(mu0, t0, seg, at, off, zeros)| Dyadic { mu0, t0, seg, at, off, zeros })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C26",
            rule: "a case counts when the point is on the boundary exactly or away from it by more than rounding, or when the reduction removes points",
            assumptions: &["boundaries have strictly increasing chemical potentials and positive temperatures before the first zero"],
            subs: || {
                vec![
                    Box::new(sub("c26-points", (200_000, 5_000_000), classified, c26_float)),
                    Box::new(sub("c26-exactly-on", (200_000, 5_000_000), dyadic, c26_dyadic)),
                    Box::new(sub("c26-reduction", (50_000, 1_000_000), boundary, c26_reduce)),
                ]
            },
            init: None,
        },
        Property {
            id: "C27",
            rule: "a case counts when there are at least two temperatures",
            assumptions: &["values are not NaN"],
            subs: || vec![Box::new(sub("c27-first-maximum", (200_000, 5_000_000), maxes, c27))],
            init: None,
        },
        Property {
            id: "C28",
            rule: "a case counts when the boundary has at least as many points as parameters",
            assumptions: &["chemical potentials span 0.5 to 1.2 (the program's scale): the optimizer starts from unit coefficients"],
            subs: || {
                vec![
                    Box::new(sub("c28-recovers-polynomials", (2500, 60000), fits, c28_recover).shrink(100)),
                    Box::new(sub("c28-least-squares", (2500, 60000), fits, c28_least_squares).shrink(100)),
                ]
            },
            init: None,
        },
    ]
}
