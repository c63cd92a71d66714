//! Complex numbers carrying a running bound on the rounding error that any
//! straightforward f64 evaluation of the same expression may incur. Reference
//! formulas are evaluated in this type; the bound (times a safety factor) is
//! the tolerance when comparing the library's result.
use num::Complex;
use std::ops::*;
pub type C = Complex<f64>;
pub const U: f64 = 2.3e-16;

#[derive(Clone, Copy, Debug)]
pub struct E {
    pub v: C,
    pub e: f64,
}

pub fn ex(v: C) -> E {
    E { v, e: 0. }
}
pub fn er(v: f64) -> E {
    E { v: C::new(v, 0.), e: 0. }
}
pub const EI: E = E { v: C { re: 0., im: 1. }, e: 0. };

fn fix(v: C, e: f64) -> E {
    let e = if e.is_nan() || !v.re.is_finite() || !v.im.is_finite() { f64::INFINITY } else { e };
    E { v, e }
}

impl E {
    pub fn inv(self) -> E {
        let n = self.v.norm();
        if self.e >= 0.5 * n {
            return fix(self.v.inv(), f64::INFINITY);
        }
        fix(self.v.inv(), self.e / (n * (n - self.e)) + 4. * U / n)
    }
    pub fn ln(self) -> E {
        let n = self.v.norm();
        let v = self.v.ln();
        if self.e >= 0.5 * n {
            return fix(v, f64::INFINITY);
        }
        // too close to the branch cut to know the side
        if self.v.re < 0. && self.v.im.abs() <= self.e * 100. && self.e > 0. {
            return fix(v, f64::INFINITY);
        }
        fix(v, self.e / (n - self.e) + 2. * U * (1. + v.norm()))
    }
    pub fn sqrt(self) -> E {
        let n = self.v.norm();
        let v = self.v.sqrt();
        if self.e >= 0.5 * n {
            return fix(v, if self.v.norm() == 0. && self.e == 0. { 0. } else { f64::INFINITY });
        }
        if self.v.re < 0. && self.v.im.abs() <= self.e * 100. && self.e > 0. {
            return fix(v, f64::INFINITY);
        }
        fix(v, self.e / v.norm() + 2. * U * v.norm())
    }
    pub fn exp(self) -> E {
        let v = self.v.exp();
        fix(v, v.norm() * ((self.e + 3. * U * (1. + self.v.norm())).exp_m1()))
    }
    pub fn sq(self) -> E {
        self * self
    }
    pub fn re(self) -> E {
        E { v: C::new(self.v.re, 0.), e: self.e }
    }
    pub fn mag(self) -> f64 {
        self.v.norm()
    }
    /// real-log of |x| (principal values), continued analytically from real x: ln(x^2)/2
    pub fn ln_abs(self) -> E {
        let n = self.v.norm();
        if self.v.im != 0. {
            return self.sq().ln() * 0.5;
        }
        if self.e >= 0.5 * n {
            return fix(C::new(n.ln(), 0.), f64::INFINITY);
        }
        fix(C::new(n.ln(), 0.), self.e / (n - self.e) + 2. * U * (1. + n.ln().abs()))
    }
}
impl Add for E {
    type Output = E;
    fn add(self, o: E) -> E {
        let v = self.v + o.v;
        fix(v, self.e + o.e + U * v.norm())
    }
}
impl Sub for E {
    type Output = E;
    fn sub(self, o: E) -> E {
        let v = self.v - o.v;
        fix(v, self.e + o.e + U * v.norm())
    }
}
impl Mul for E {
    type Output = E;
    fn mul(self, o: E) -> E {
        let v = self.v * o.v;
        let (a, b) = (self.v.norm(), o.v.norm());
        let z = |x: f64, y: f64| if x == 0. || y == 0. { 0. } else { x * y };
        fix(v, z(a, o.e) + z(b, self.e) + z(self.e, o.e) + 4. * U * a * b)
    }
}
impl Div for E {
    type Output = E;
    fn div(self, o: E) -> E {
        self * o.inv()
    }
}
impl Neg for E {
    type Output = E;
    fn neg(self) -> E {
        E { v: -self.v, e: self.e }
    }
}
macro_rules! mixed {
    ($($tr:ident $f:ident),*) => {$(
        impl $tr<f64> for E { type Output = E; fn $f(self, o: f64) -> E { self.$f(er(o)) } }
        impl $tr<E> for f64 { type Output = E; fn $f(self, o: E) -> E { er(self).$f(o) } }
    )*}
}
mixed!(Add add, Sub sub, Mul mul, Div div);
impl std::iter::Sum for E {
    fn sum<I: Iterator<Item = E>>(it: I) -> E {
        it.fold(er(0.), |a, b| a + b)
    }
}

/// Verdict of comparing a library value with a reference.
/// Tolerance: `k` times the error bound of the reference.
pub fn cmp(what: &str, got: C, want: E, k: f64) -> Result<bool, String> {
    let n = want.v.norm();
    if !want.e.is_finite() || !n.is_finite() || n > 1e250 {
        return Ok(false);
    }
    let tol = k * want.e + 1e-290;
    let d = (got - want.v).norm();
    if d.is_nan() || d > tol {
        return Err(format!("{what}: got {got:e}, expected {:e}, |diff| {d:e} > tolerance {tol:e}", want.v));
    }
    Ok(tol < 1e-3 * n)
}
pub fn cmpr(what: &str, got: f64, want: E, k: f64) -> Result<bool, String> {
    cmp(what, C::new(got, 0.), want, k)
}
