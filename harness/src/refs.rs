//! Reference expressions (independent of the library), evaluated with running error bounds.
use crate::ea::*;
use std::f64::consts::PI;

/// The three kinematic families of the thermal functions.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fam {
    Gen,
    ZMat,
    ZMom,
}

/// Occupations of deep thermal tails: complex-typed evaluations may flush to zero there
/// (the squared modulus of the exponential overflows), which is harmless.
fn tail(x: E) -> E {
    let v = (-x.v.re).exp();
    E { v: (-x.v).exp(), e: v * 2. * (x.e + 4. * U * x.v.norm()) + if x.v.re > 340. { 1e-140 } else { 0. } }
}
/// 1/(exp(beta e)-1)
pub fn bose(en: E, beta: f64) -> E {
    let x = en * beta;
    if x.v.re > 300. {
        return tail(x);
    }
    if x.v.re < -40. {
        return er(-1.) - tail(-x);
    }
    (x.exp() - 1.).inv()
}
pub fn fermi(x: E, beta: f64) -> E {
    // x = energy - mu
    let y = x * beta;
    if y.v.re > 300. {
        return tail(y);
    }
    if y.v.re < -300. {
        return er(1.) - tail(-y);
    }
    if y.v.re < 0. {
        return 1. - ((-y).exp() + 1.).inv();
    }
    (y.exp() + 1.).inv()
}
pub fn fermi2(en: E, beta: f64, mu: f64) -> E {
    fermi(en - mu, beta) + fermi(en + mu, beta)
}
pub fn step2(en: E, mu: f64) -> E {
    let a = if en.v.re > mu { 0. } else { 1. };
    let b = if en.v.re > -mu { 0. } else { 1. };
    er(a + b)
}
/// sqrt(q^2 + m^2), principal branch for complex masses
pub fn energy(q: f64, m: C) -> E {
    (er(q).sq() + ex(m).sq()).sqrt()
}
const Z: C = C::new(0., 0.);

/// One-loop kinematics for given external (om, p), loop momentum q, temperature.
pub struct Loop {
    pub fam: Fam,
    pub q: E,
    pub om: E,
    pub p: E,
    pub beta: f64,
    pub qf: f64,
    /// evaluate equal masses with the general two-mass expression too
    pub force: bool,
}

struct Pole {
    n: E,
    en: E,
    /// R+ and R- (equal at zero Matsubara frequency)
    r: [E; 2],
    /// R at zero frequency
    rz: E,
}

impl Loop {
    pub fn new(fam: Fam, q: f64, om: C, p: f64, beta: f64) -> Loop {
        let om = if fam == Fam::ZMat { C::new(0., 0.) } else { om };
        let p = if fam == Fam::ZMom { 0. } else { p };
        Loop { fam, q: er(q), om: ex(om), p: er(p), beta, qf: q, force: false }
    }
    pub fn s(&self) -> E {
        match self.fam {
            Fam::Gen => self.om.sq() + self.p.sq(),
            Fam::ZMat => self.p.sq(),
            Fam::ZMom => self.om.sq(),
        }
    }
    fn poles(&self, m1: C, m2: C) -> (Pole, Pole, E) {
        let delta = if m1 == m2 && !self.force { er(0.) } else { ex(m2).sq() - ex(m1).sq() };
        let mk = |m: C, d: E| {
            let en = if m == Z { self.q } else { energy(self.qf, m) };
            let base = self.om.sq() + self.p.sq() + d;
            let w = 2. * EI * self.om * en;
            Pole { n: bose(en, self.beta), en, r: [base + w, base - w], rz: self.p.sq() + d }
        };
        (mk(m1, delta), mk(m2, -delta), delta)
    }
    fn qp2(&self) -> E {
        2. * self.q * self.p
    }
    /// int_{-1}^1 2pq dx / (R + 2pqx)
    pub fn log(&self, r: E) -> E {
        let a = self.qp2();
        if self.fam == Fam::ZMat {
            ((r + a) / (r - a)).ln_abs()
        } else {
            ((r + a) / (r - a)).ln()
        }
    }
    /// scalar two-propagator integrand
    pub fn i(&self, m1: C, m2: C) -> E {
        let (a, b, _) = self.poles(m1, m2);
        match self.fam {
            Fam::Gen => {
                let t = |x: &Pole| x.n / x.en * (self.log(x.r[0]) + self.log(x.r[1]));
                (t(&a) + t(&b)) * self.q / (16. * PI * PI * self.p)
            }
            Fam::ZMat => {
                let t = |x: &Pole| x.n / x.en * self.log(x.rz);
                (t(&a) + t(&b)) * self.q / (8. * PI * PI * self.p)
            }
            Fam::ZMom => {
                let t = |x: &Pole| x.n / x.en * (x.r[0].inv() + x.r[1].inv());
                (t(&a) + t(&b)) * self.q.sq() / (4. * PI * PI)
            }
        }
    }
    /// longitudinal
    pub fn il(&self, m1: C, m2: C) -> E {
        let (a, b, d) = self.poles(m1, m2);
        let (q, p, om, s) = (self.q, self.p, self.om, self.s());
        match self.fam {
            Fam::Gen => {
                let t = |x: &Pole, d: E| {
                    let k = 2. * EI * x.en * p.sq() / om;
                    let x0 = x.r[0] + k;
                    let x1 = x.r[1] - k;
                    x.n / x.en * (x0.sq() * self.log(x.r[0]) + x1.sq() * self.log(x.r[1]) - 8. * q * p * (s + d))
                };
                om.sq() * q * (t(&a, d) + t(&b, -d)) / (64. * PI * PI * s * p * p * p)
            }
            Fam::ZMat => {
                let t = |x: &Pole| x.n * x.en * self.log(x.rz);
                -q / (8. * PI * PI * p) * (t(&a) + t(&b))
            }
            Fam::ZMom => {
                let t = |x: &Pole| x.n / x.en * (x.r[0].inv() + x.r[1].inv());
                (t(&a) + t(&b)) * q.sq().sq() / (12. * PI * PI)
            }
        }
    }
    /// transverse
    pub fn it(&self, m1: C, m2: C) -> E {
        let (a, b, d) = self.poles(m1, m2);
        let (q, p, s) = (self.q, self.p, self.s());
        let w = self.qp2();
        match self.fam {
            Fam::Gen => {
                let t = |x: &Pole, d: E| {
                    let g = |r: E| (r + w) * (r - w) * self.log(r);
                    x.n / x.en * (g(x.r[0]) + g(x.r[1]) - 8. * q * p * (s + d))
                };
                -q * (t(&a, d) + t(&b, -d)) / (128. * PI * PI * p * p * p)
            }
            Fam::ZMat => {
                let t = |x: &Pole, d: E| x.n / x.en * ((x.rz + w) * (x.rz - w) * self.log(x.rz) - 4. * q * p * (s + d));
                -q * (t(&a, d) + t(&b, -d)) / (64. * PI * PI * p * p * p)
            }
            Fam::ZMom => self.il(m1, m2),
        }
    }
    /// derivative (up to total q-derivatives) with respect to m1^2
    pub fn di(&self, m1: C, m2: C) -> E {
        let (a, b, _) = self.poles(m1, m2);
        let (q, p, w) = (self.q, self.p, self.qp2());
        match self.fam {
            Fam::Gen | Fam::ZMat => {
                let zm = self.fam == Fam::ZMat;
                let sum = |x: &Pole, sg: f64| -> E {
                    let g = |r: E| (r + w).inv() + sg * (r - w).inv();
                    x.n / x.en * if zm { 2. * g(x.rz) } else { g(x.r[0]) + g(x.r[1]) }
                };
                let mut t = -sum(&a, 1.);
                if m1 != m2 || self.force {
                    t = t + (sum(&b, -1.) - sum(&a, -1.)) * q / p;
                }
                t / (16. * PI * PI)
            }
            Fam::ZMom => {
                let s1 = |x: &Pole| x.n / x.en * (x.r[0].inv() + x.r[1].inv());
                let s2 = |x: &Pole| x.n / x.en * (x.r[0].inv().sq() + x.r[1].inv().sq());
                let mut t = -s1(&a);
                if m1 != m2 || self.force {
                    t = t + (s2(&a) - s2(&b)) * q.sq() * 2.;
                }
                t / (8. * PI * PI)
            }
        }
    }
    pub fn dil(&self, m1: C, m2: C) -> E {
        let (a, b, d) = self.poles(m1, m2);
        let (q, p, om, s, w) = (self.q, self.p, self.om, self.s(), self.qp2());
        match self.fam {
            Fam::Gen => {
                let x = |z: &Pole| {
                    let k = 2. * EI * z.en * p.sq() / om;
                    [z.r[0] + k, z.r[1] - k]
                };
                let inv = |r: E, sg: f64| (r + w).inv() + sg * (r - w).inv();
                let xa = x(&a);
                let na = a.n / a.en;
                let mut t = -na * (inv(a.r[0], 1.) * xa[0].sq() + inv(a.r[1], 1.) * xa[1].sq()) + na * (s + d) * 4.;
                if m1 != m2 || self.force {
                    let xb = x(&b);
                    let nb = b.n / b.en;
                    t = t + (na - nb) * q.sq() * 8.;
                    let l = |z: &Pole, x: [E; 2]| x[0] * self.log(z.r[0]) + x[1] * self.log(z.r[1]);
                    t = t + (nb * l(&b, xb) - na * l(&a, xa)) * q / p * 2.;
                    let g = |z: &Pole, x: [E; 2]| x[0].sq() * inv(z.r[0], -1.) + x[1].sq() * inv(z.r[1], -1.);
                    t = t + (nb * g(&b, xb) - na * g(&a, xa)) * q / p;
                }
                om.sq() * t / (64. * PI * PI * s * p * p)
            }
            Fam::ZMat => {
                let inv = |r: E, sg: f64| (r + w).inv() + sg * (r - w).inv();
                let mut t = a.n * a.en * inv(a.rz, 1.);
                if m1 != m2 || self.force {
                    t = t - (b.n * b.en * inv(b.rz, -1.) - a.n * a.en * inv(a.rz, -1.)) * q / p;
                }
                t / (8. * PI * PI)
            }
            Fam::ZMom => {
                let s1 = |x: &Pole| x.n / x.en * (x.r[0].inv() + x.r[1].inv());
                let s2 = |x: &Pole| x.n / x.en * (x.r[0].inv().sq() + x.r[1].inv().sq());
                let mut t = -s1(&a);
                if m1 != m2 || self.force {
                    t = t + (s2(&a) - s2(&b)) * q.sq() * (2. / 3.);
                }
                t * q.sq() / (8. * PI * PI)
            }
        }
    }
    pub fn dit(&self, m1: C, m2: C) -> E {
        let (a, b, _) = self.poles(m1, m2);
        let (q, p) = (self.q, self.p);
        match self.fam {
            Fam::Gen | Fam::ZMat => {
                let zm = self.fam == Fam::ZMat;
                let l = |x: &Pole| if zm { 2. * self.log(x.rz) } else { self.log(x.r[0]) + self.log(x.r[1]) };
                let rl = |x: &Pole| {
                    if zm {
                        2. * x.rz * self.log(x.rz)
                    } else {
                        x.r[0] * self.log(x.r[0]) + x.r[1] * self.log(x.r[1])
                    }
                };
                let (na, nb) = (a.n / a.en, b.n / b.en);
                let mut t = -na * l(&a) / 4.;
                if m1 != m2 || self.force {
                    t = t + (nb - na) * q / p + (na * rl(&a) - nb * rl(&b)) / (8. * p.sq());
                }
                t * q / (8. * PI * PI * p)
            }
            Fam::ZMom => self.dil(m1, m2),
        }
    }
    /// tadpoles: scalar, longitudinal (temporal), transverse
    pub fn j(&self, m: C) -> E {
        let en = energy(self.qf, m);
        bose(en, self.beta) * self.q.sq() / (2. * PI * PI * en)
    }
    pub fn jl(&self, m: C) -> E {
        let en = energy(self.qf, m);
        -bose(en, self.beta) * self.q.sq() * en / (2. * PI * PI)
    }
    pub fn jt(&self, m: C) -> E {
        let en = energy(self.qf, m);
        bose(en, self.beta) * self.q.sq().sq() / (6. * PI * PI * en)
    }
    pub fn dj(&self, m: C) -> E {
        let en = energy(self.qf, m);
        -bose(en, self.beta) / (4. * PI * PI * en)
    }
    pub fn djl(&self, m: C) -> E {
        let en = energy(self.qf, m);
        bose(en, self.beta) * en / (4. * PI * PI)
    }
    pub fn djt(&self, m: C) -> E {
        let en = energy(self.qf, m);
        -bose(en, self.beta) * self.q.sq() / (4. * PI * PI * en)
    }
    fn bm(&self, en: E) -> E {
        // n(-E) = -1 - n(E)
        (er(1.) + bose(en, self.beta)) * -1.
    }
    pub fn d2j(&self, m: C) -> E {
        let en = energy(self.qf, m);
        bose(en, self.beta) / (8. * PI * PI * en * en * en) * (1. - self.beta * en * self.bm(en))
    }
    pub fn d2jl(&self, m: C) -> E {
        let en = energy(self.qf, m);
        bose(en, self.beta) / (8. * PI * PI) * (self.bm(en) * self.beta + en.inv())
    }
    pub fn d2jt(&self, m: C) -> E {
        let en = energy(self.qf, m);
        bose(en, self.beta) / (8. * PI * PI * en)
    }
    /// temporal/transverse tadpole projected on the longitudinal polarization
    fn proj(&self, l: E, t: E) -> E {
        match self.fam {
            Fam::Gen => (self.om.sq() * t + self.p.sq() * l) / self.s(),
            Fam::ZMat => l,
            Fam::ZMom => t,
        }
    }
    pub fn ghost(&self, m: C) -> E {
        let s = self.s();
        let m2 = ex(m).sq();
        let a = s + m2;
        -a * s / (2. * m2) * self.i(m, Z) + s * s / (2. * m2) * self.i(Z, Z)
            + (2. * s - m2) / (4. * m2) * (self.j(m) - self.j(Z))
            + a * a / 4. * self.di(m, Z)
            - (s - m2) / 4. * self.dj(m)
    }
    pub fn glue(&self, m: C, longitudinal: bool) -> E {
        let s = self.s();
        let m2 = ex(m).sq();
        let m4 = m2.sq();
        let (i, di): (&dyn Fn(C, C) -> E, &dyn Fn(C, C) -> E) = if longitudinal {
            (&|a, b| self.il(a, b), &|a, b| self.dil(a, b))
        } else {
            (&|a, b| self.it(a, b), &|a, b| self.dit(a, b))
        };
        let jp = |m: C| if longitudinal { self.proj(self.jl(m), self.jt(m)) } else { self.jt(m) };
        let djp = if longitudinal { self.proj(self.djl(m), self.djt(m)) } else { self.djt(m) };
        let d2jp = if longitudinal { self.proj(self.d2jl(m), self.d2jt(m)) } else { self.d2jt(m) };
        let a = s + 2. * m2;
        let b = s + m2;
        (3. * s * s / (2. * m4) - 1.) * i(Z, Z)
            + ((3. * s * s + 8. * s * m2 + 4. * m4) / (2. * m4) + 4.) * i(m, m)
            - (3. * s * s + 4. * s * m2 + m4) / m4 * i(m, Z)
            + 2. * a * s / m2 * self.i(m, m)
            - 2. * b * s / m2 * self.i(m, Z)
            - (2. * s + 3. * m2) / m2 * self.j(m)
            + (2. * s + m2) / m2 * self.j(Z)
            - (a * a / m2 + 8. * m2) * di(m, m)
            + b * b / m2 * di(m, Z)
            - 2. * s * (s + 4. * m2) * self.di(m, m)
            + b * b * self.di(m, Z)
            + (s + 3. * m2) * self.dj(m)
            - m4 * self.d2j(m)
            + (jp(m) - jp(Z)) / m2
            - djp
            + d2jp * m2 / 2.
    }
    /// quark-loop polarization with occupation factor f
    pub fn quark(&self, mq: C, f: E, nc: f64, longitudinal: bool) -> E {
        let en = energy(self.qf, mq);
        let (q, p, om, s) = (self.q, self.p, self.om, self.s());
        let pi2 = PI * PI;
        match self.fam {
            Fam::Gen => {
                let w = 2. * EI * om * en;
                let base = om.sq() + p.sq();
                let (lp, lm) = (self.log(base + w), self.log(base - w));
                if longitudinal {
                    let c0 = s - 4. * en * en;
                    let c1 = 4. * EI * om * en;
                    -f * q.sq() * s / (2. * pi2 * nc * p.sq() * en)
                        * (1. - ((c0 + c1) * lp + (c0 - c1) * lm) / (8. * p * q))
                } else {
                    let a = p.sq() - om.sq();
                    let b = a * s + 4. * q.sq() * p.sq() + 4. * om.sq() * en * en;
                    let cc = 4. * EI * s * om * en;
                    -f * q.sq() / (4. * pi2 * nc * p.sq() * en) * (a - ((b - cc) * lp + (b + cc) * lm) / (8. * q * p))
                }
            }
            Fam::ZMat => {
                let l = ((p + 2. * q) / (p - 2. * q)).ln_abs();
                if longitudinal {
                    -f * q.sq() / (2. * pi2 * nc * en) * (1. - (s - 4. * en * en) / (4. * q * p) * l)
                } else {
                    -f * q.sq() / (4. * pi2 * nc * en) * (1. - (p.sq() + 4. * q.sq()) / (4. * q * p) * l)
                }
            }
            Fam::ZMom => 2. * f * q.sq() * (q.sq() - 3. * en * en) / ((om.sq() + 4. * en * en) * en * (3. * pi2 * nc)),
        }
    }
}

// ---- vacuum -------------------------------------------------------------
pub fn v_lna(s: E) -> (E, E, E) {
    // a = sqrt(1+4/s), ln((a-1)/(a+1)) with (a-1)/(a+1) = ((a-1)/2)^2 s
    let a = (4. / s + 1.).sqrt();
    let l = ((a - 1.) / 2.).ln() * 2. + s.ln();
    let l2 = ((a - 1.) / (a + 1.)).ln();
    (a, l, l2)
}
pub fn g(s: E) -> E {
    let l1 = (s + 1.).ln();
    ((s + 1.).sq() * (2. / s - 1. / s.sq()) * l1 - 2. * s * s.ln() + 1. / s + 2.) / 12.
}
pub fn f(s: E) -> E {
    f_sep(s, s.ln(), (s + 1.).ln(), v_lna(s).1)
}
pub fn f_sep(s: E, ls: E, l1: E, lna: E) -> E {
    let _ = ls;
    let a = (4. / s + 1.).sqrt();
    let i = 1. / s;
    let la = (3. * s * s - 34. * s - 28. - 24. * i) * a * lna;
    let lb = 2. * (s + 1.).sq() * (3. - 20. * i + 11. * i * i - 2. * i * i * i) * l1;
    let lc = (2. - 3. * s * s) * ls;
    let ra = -(s + 4.) * (s - 20. + 12. * i);
    let rb = 2. * (s + 1.).sq() * (1. - 10. * i + i * i);
    let rc = 2. * i * i + 2. - s * s;
    (la + lb + lc + ra + rb + rc) / 72. + 5. * i / 8.
}
pub fn f_xi(s: E) -> E {
    let i = 1. / s;
    let (ls, l1) = (s.ln(), (s + 1.).ln());
    i / 4. - (2. * s * ls - 2. * (i - 1.) * (1. - s) * (s * s + s + 1.) * i * i * l1 + 3. - 3. * i + 2. * i * i) / 12.
}
pub fn g_xi(s: E) -> E {
    -s.ln() / 12.
}
pub fn f_q(s: E) -> E {
    let i = 1. / s;
    let (a, _, l) = v_lna(s);
    (4. / 9.) * ((0.5 - i) * a * l - 2. * i + 5. / 6.)
}
pub fn f_q_crossed(s: E) -> E {
    let i = 1. / s;
    let (a, _, l) = v_lna(s);
    (4. / 9.) * (4. * i - 1. / 6. + (0.5 + i + 8. * i * i) / a * l)
}
