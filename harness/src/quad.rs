//! Quadratures used by oracles (independent of the library's own integrator).
use crate::ea::C;
use std::sync::OnceLock;

/// Gauss-Legendre nodes/weights on [-1,1].
pub fn gl(n: usize) -> &'static [(f64, f64)] {
    static T: OnceLock<Vec<Vec<(f64, f64)>>> = OnceLock::new();
    let t = T.get_or_init(|| {
        (0..65)
            .map(|n| {
                (0..n)
                    .map(|i| {
                        let mut x = (std::f64::consts::PI * (i as f64 + 0.75) / (n as f64 + 0.5)).cos();
                        let mut dp = 1.;
                        for _ in 0..100 {
                            let (mut p0, mut p1) = (1., x);
                            for k in 2..=n {
                                let k = k as f64;
                                (p0, p1) = (p1, ((2. * k - 1.) * x * p1 - (k - 1.) * p0) / k);
                            }
                            dp = n as f64 * (x * p1 - p0) / (x * x - 1.);
                            let dx = p1 / dp;
                            x -= dx;
                            if dx.abs() < 1e-16 {
                                break;
                            }
                        }
                        (x, 2. / ((1. - x * x) * dp * dp))
                    })
                    .collect()
            })
            .collect()
    });
    &t[n]
}

/// Composite Gauss-Legendre over consecutive panels.
pub fn panels(edges: &[f64], n: usize, f: &mut dyn FnMut(f64) -> C) -> C {
    let mut s = C::new(0., 0.);
    for w in edges.windows(2) {
        let (h, c) = ((w[1] - w[0]) / 2., (w[1] + w[0]) / 2.);
        if h == 0. {
            continue;
        }
        for &(x, wt) in gl(n) {
            s += f(c + h * x) * (wt * h);
        }
    }
    s
}

/// Panel edges on [a,b], geometrically graded towards each centre (down to `d` around it).
pub fn graded(a: f64, b: f64, centres: &[(f64, f64)]) -> Vec<f64> {
    let mut e = vec![a, b];
    for &(c, d) in centres {
        let d = d.max((b - a) * 1e-14);
        let mut r = d;
        if c > a && c < b {
            e.push(c);
        }
        while r < (b - a) * 2. {
            for x in [c - r, c + r] {
                if x > a && x < b {
                    e.push(x);
                }
            }
            r *= 2.;
        }
    }
    e.sort_by(f64::total_cmp);
    e.dedup_by(|x, y| (*x - *y).abs() < 1e-15 * (b - a));
    e
}

/// Adaptive Gauss-Kronrod-like integration (GL 15 vs 2x15) for oracles; returns (value, error estimate).
pub fn adaptive(edges: &[f64], rtol: f64, maxev: usize, f: &dyn Fn(f64) -> C) -> (C, f64) {
    let one = |a: f64, b: f64| {
        let (h, c) = ((b - a) / 2., (a + b) / 2.);
        let mut s = C::new(0., 0.);
        for &(x, wt) in gl(15) {
            s += f(c + h * x) * (wt * h);
        }
        s
    };
    let mut st: Vec<(f64, f64, C, f64, u32)> = vec![];
    let refine = |a: f64, b: f64, whole: C| {
        let m = (a + b) / 2.;
        let (l, r) = (one(a, m), one(m, b));
        (l, r, (l + r - whole).norm())
    };
    let mut done = (C::new(0., 0.), 0.);
    let mut ev = 0;
    for w in edges.windows(2) {
        let v = one(w[0], w[1]);
        ev += 15;
        st.push((w[0], w[1], v, f64::INFINITY, 0));
    }
    let mut tot: C = st.iter().map(|s| s.2).sum();
    while let Some((a, b, v, _, d)) = st.pop() {
        let (l, r, e) = refine(a, b, v);
        ev += 30;
        tot += l + r - v;
        if e <= rtol * tot.norm() * 0.05 || e <= 1e-300 || d > 60 || ev > maxev {
            done.0 += l + r;
            done.1 += e;
        } else {
            let m = (a + b) / 2.;
            st.push((a, m, l, e, d + 1));
            st.push((m, b, r, e, d + 1));
        }
    }
    done
}

/// Kahan-free tanh-sinh on (0,1) mapped interval [a,b] (endpoint singularities allowed).
pub fn tanh_sinh(a: f64, b: f64, h: f64, f: &dyn Fn(f64, f64, f64) -> C) -> C {
    // f(x, distance to a, distance to b)
    let mut s = C::new(0., 0.);
    let n = (3.6 / h) as i64;
    for k in -n..=n {
        let t = k as f64 * h;
        let u = std::f64::consts::FRAC_PI_2 * t.sinh();
        let w = std::f64::consts::FRAC_PI_2 * t.cosh() / (u.cosh() * u.cosh());
        // distances in units of (b-a)
        let db = 1. / (1. + (2. * u).exp());
        let da = 1. / (1. + (-2. * u).exp());
        let (xa, xb) = (da * (b - a), db * (b - a));
        let x = if da < db { a + xa } else { b - xb };
        if w == 0. || xa == 0. || xb == 0. {
            continue;
        }
        s += f(x, xa, xb) * (w * h * (b - a) / 2.);
    }
    s
}
