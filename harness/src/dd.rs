//! Double-double arithmetic (about 31 significant digits) and the special
//! functions the reference model needs. Nothing in here is shared with, or
//! copied from, the code under test: different algorithms and a wider format.

use std::cmp::Ordering;
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct DD {
    pub hi: f64,
    pub lo: f64,
}

#[inline]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}

#[inline]
fn quick_two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}

#[inline]
fn split(a: f64) -> (f64, f64) {
    if a.abs() > 6.69692879491417e+299 {
        let a = a * 3.7252902984619140625e-09;
        let t = 134217729.0 * a;
        let hi = t - (t - a);
        let lo = a - hi;
        (hi * 268435456.0, lo * 268435456.0)
    } else {
        let t = 134217729.0 * a;
        let hi = t - (t - a);
        (hi, a - hi)
    }
}

#[inline]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}

impl From<f64> for DD {
    #[inline]
    fn from(x: f64) -> DD {
        DD { hi: x, lo: 0.0 }
    }
}

impl Add for DD {
    type Output = DD;
    #[inline]
    fn add(self, o: DD) -> DD {
        let (s1, s2) = two_sum(self.hi, o.hi);
        if !s1.is_finite() {
            return DD { hi: s1, lo: 0.0 };
        }
        let (t1, t2) = two_sum(self.lo, o.lo);
        let (s1, s2) = quick_two_sum(s1, s2 + t1);
        let (hi, lo) = quick_two_sum(s1, s2 + t2);
        DD { hi, lo }
    }
}

impl Neg for DD {
    type Output = DD;
    #[inline]
    fn neg(self) -> DD {
        DD { hi: -self.hi, lo: -self.lo }
    }
}

impl Sub for DD {
    type Output = DD;
    #[inline]
    fn sub(self, o: DD) -> DD {
        self + (-o)
    }
}

impl Mul for DD {
    type Output = DD;
    #[inline]
    fn mul(self, o: DD) -> DD {
        let (p, e) = two_prod(self.hi, o.hi);
        if !p.is_finite() || p == 0.0 {
            return DD { hi: self.hi * o.hi, lo: 0.0 };
        }
        let e = e + (self.hi * o.lo + self.lo * o.hi);
        let (hi, lo) = quick_two_sum(p, e);
        DD { hi, lo }
    }
}

impl Div for DD {
    type Output = DD;
    #[inline]
    fn div(self, o: DD) -> DD {
        let q1 = self.hi / o.hi;
        if !q1.is_finite() || q1 == 0.0 || !o.hi.is_finite() {
            return DD { hi: q1, lo: 0.0 };
        }
        if (self.hi.abs() < 1e-270 || o.hi.abs() < 1e-270) && self.hi.abs().max(o.hi.abs()) < 1e100 {
            // The residual would underflow.
            let k = 2f64.powi(600);
            let up = |v: DD| DD { hi: v.hi * k, lo: v.lo * k };
            return up(self) / up(o);
        }
        let r = self - o * DD::from(q1);
        let q2 = r.hi / o.hi;
        let r = r - o * DD::from(q2);
        let q3 = r.hi / o.hi;
        let (hi, lo) = quick_two_sum(q1, q2);
        DD { hi, lo } + DD::from(q3)
    }
}

macro_rules! mixed {
    ($($t:ident $f:ident),*) => {$(
        impl $t<f64> for DD { type Output = DD; #[inline] fn $f(self, o: f64) -> DD { $t::$f(self, DD::from(o)) } }
        impl $t<DD> for f64 { type Output = DD; #[inline] fn $f(self, o: DD) -> DD { $t::$f(DD::from(self), o) } }
    )*};
}
mixed!(Add add, Sub sub, Mul mul, Div div);

impl PartialOrd for DD {
    fn partial_cmp(&self, o: &DD) -> Option<Ordering> {
        match self.hi.partial_cmp(&o.hi) {
            Some(Ordering::Equal) => self.lo.partial_cmp(&o.lo),
            r => r,
        }
    }
}

pub const ZERO: DD = DD { hi: 0.0, lo: 0.0 };
pub const ONE: DD = DD { hi: 1.0, lo: 0.0 };
pub const HALF: DD = DD { hi: 0.5, lo: 0.0 };
pub const PI: DD = DD { hi: 3.141592653589793116e+00, lo: 1.224646799147353207e-16 };
pub const LN2: DD = DD { hi: 6.931471805599452862e-01, lo: 2.319046813846299558e-17 };
pub const E: DD = DD { hi: 2.718281828459045091e+00, lo: 1.445646891729250158e-16 };

#[inline]
pub fn dd(x: f64) -> DD {
    DD::from(x)
}

impl DD {
    pub fn f(self) -> f64 {
        self.hi + self.lo
    }
    pub fn abs(self) -> DD {
        if self.hi < 0.0 || (self.hi == 0.0 && self.lo < 0.0) {
            -self
        } else {
            self
        }
    }
    pub fn min(self, o: DD) -> DD {
        if self < o {
            self
        } else {
            o
        }
    }
    pub fn ldexp(self, k: i32) -> DD {
        // Two steps so that intermediate factors stay finite.
        let k1 = k / 2;
        let (f1, f2) = (2f64.powi(k1), 2f64.powi(k - k1));
        DD { hi: self.hi * f1 * f2, lo: self.lo * f1 * f2 }
    }
    pub fn sqr(self) -> DD {
        self * self
    }
    pub fn sqrt(self) -> DD {
        if self.hi <= 0.0 {
            return ZERO;
        }
        if !self.hi.is_finite() {
            return self;
        }
        let x = dd(self.hi.sqrt());
        let x = (x + self / x) * 0.5;
        (x + self / x) * 0.5
    }
    pub fn powi(self, n: u32) -> DD {
        let (mut r, mut b, mut n) = (ONE, self, n);
        while n > 0 {
            if n & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            n >>= 1;
        }
        r
    }
    /// exp(x) - 1 for |x| small (Taylor), accurate relatively.
    fn expm1_taylor(self) -> DD {
        let mut term = self;
        let mut sum = self;
        let mut n = 2.0;
        while term.hi.abs() > 1e-36 * sum.hi.abs() && n < 60.0 {
            term = term * self / n;
            sum = sum + term;
            n += 1.0;
        }
        sum
    }
    pub fn exp(self) -> DD {
        if self.hi > 709.78 {
            return dd(f64::INFINITY);
        }
        if self.hi < -760.0 {
            return ZERO;
        }
        let k = (self.hi / LN2.hi).round();
        let r = (self - LN2 * k) * (1.0 / 256.0);
        let mut s = r.expm1_taylor();
        for _ in 0..8 {
            s = s * 2.0 + s * s;
        }
        (s + 1.0).ldexp(k as i32)
    }
    pub fn exp_m1(self) -> DD {
        if self.hi.abs() < 0.3 {
            let mut s = (self * (1.0 / 64.0)).expm1_taylor();
            for _ in 0..6 {
                s = s * 2.0 + s * s;
            }
            s
        } else {
            self.exp() - 1.0
        }
    }
    pub fn ln(self) -> DD {
        if self.hi <= 0.0 {
            return dd(f64::NEG_INFINITY);
        }
        if !self.hi.is_finite() {
            return self;
        }
        // Normalise to [1/sqrt2, sqrt2) so that exp never over- or underflows.
        let (mut m, mut k) = (self, 0i32);
        while m.hi >= 2f64.powi(512) {
            m = m.ldexp(-512);
            k += 512;
        }
        while m.hi < 2f64.powi(-512) {
            m = m.ldexp(512);
            k -= 512;
        }
        let e = m.hi.log2().round() as i32;
        m = m.ldexp(-e);
        k += e;
        if (m.hi - 1.0).abs() < 0.05 {
            return (m - 1.0).ln_1p_series() + LN2 * (k as f64);
        }
        let y = dd(m.hi.ln());
        let ey = y.exp();
        let y = y + 2.0 * (m - ey) / (m + ey);
        y + LN2 * (k as f64)
    }
    fn ln_1p_series(self) -> DD {
        // 2 atanh(x / (2 + x))
        let t = self / (self + 2.0);
        let t2 = t * t;
        let (mut p, mut sum, mut n) = (t, t, 3.0);
        while p.hi.abs() > 1e-36 * sum.hi.abs() && n < 200.0 {
            p = p * t2;
            sum = sum + p / n;
            n += 2.0;
        }
        sum * 2.0
    }
    pub fn ln_1p(self) -> DD {
        if self.hi.abs() < 0.3 {
            self.ln_1p_series()
        } else {
            (self + 1.0).ln()
        }
    }
    /// (sin, cos) for |x| <= 4.
    pub fn sin_cos(self) -> (DD, DD) {
        let x2 = self * self;
        let (mut s, mut t, mut n) = (self, self, 1.0);
        while t.hi.abs() > 1e-36 && n < 80.0 {
            t = -(t * x2) / ((n + 1.0) * (n + 2.0));
            s = s + t;
            n += 2.0;
        }
        let (mut c, mut t, mut n) = (ONE, ONE, 0.0);
        while t.hi.abs() > 1e-36 && n < 80.0 {
            t = -(t * x2) / ((n + 1.0) * (n + 2.0));
            c = c + t;
            n += 2.0;
        }
        (s, c)
    }
    pub fn atan(self) -> DD {
        if self.hi.abs() > 1.0 {
            let h = PI * 0.5;
            let r = (ONE / self).atan();
            return if self.hi > 0.0 { h - r } else { -h - r };
        }
        let y = dd(self.hi.atan());
        let (s, c) = y.sin_cos();
        // tan(y + d) = x  =>  tan(d) = (x - tan y)/(1 + x tan y)
        let d = (self * c - s) / (c + self * s);
        y + d - d * d * d / 3.0
    }
}

// Bernoulli numbers B_2, B_4, ... as exact fractions.
const BERN: [(f64, f64); 15] = [
    (1.0, 6.0),
    (-1.0, 30.0),
    (1.0, 42.0),
    (-1.0, 30.0),
    (5.0, 66.0),
    (-691.0, 2730.0),
    (7.0, 6.0),
    (-3617.0, 510.0),
    (43867.0, 798.0),
    (-174611.0, 330.0),
    (854513.0, 138.0),
    (-236364091.0, 2730.0),
    (8553103.0, 6.0),
    (-23749461029.0, 870.0),
    (8615841276005.0, 14322.0),
];

/// Natural logarithm of the gamma function, x > 0.
pub fn lgamma(x: DD) -> DD {
    let mut x = x;
    let mut shift = ZERO;
    if x.hi < 45.0 {
        let mut prod = ONE;
        while x.hi < 45.0 {
            prod = prod * x;
            x = x + 1.0;
        }
        shift = prod.ln();
    }
    let ln2pi_half = (PI * 2.0).ln() * 0.5;
    let mut s = (x - 0.5) * x.ln() - x + ln2pi_half;
    if x.hi < 1e40 {
        let xi2 = ONE / (x * x);
        let mut p = ONE / x;
        for (k, &(a, b)) in BERN.iter().enumerate() {
            let m = 2.0 * (k as f64 + 1.0);
            let t = p * (dd(a) / (b * m * (m - 1.0)));
            s = s + t;
            if t.hi.abs() < 1e-36 * s.hi.abs() {
                break;
            }
            p = p * xi2;
        }
    }
    s - shift
}

pub fn lbeta(a: DD, b: DD) -> DD {
    lgamma(a) + lgamma(b) - lgamma(a + b)
}

pub fn digamma(x: DD) -> DD {
    let mut x = x;
    let mut s = ZERO;
    while x.hi < 45.0 {
        s = s - ONE / x;
        x = x + 1.0;
    }
    s = s + x.ln() - HALF / x;
    let xi2 = ONE / (x * x);
    let mut p = xi2;
    for (k, &(a, b)) in BERN.iter().enumerate() {
        let m = 2.0 * (k as f64 + 1.0);
        let t = p * (dd(a) / (b * m));
        s = s - t;
        if t.hi.abs() < 1e-36 {
            break;
        }
        p = p * xi2;
    }
    s
}

/// Both tails (P, Q) of the regularised incomplete gamma function.
pub fn inc_gamma(a: DD, x: DD) -> (DD, DD) {
    if x.hi <= 0.0 {
        return (ZERO, ONE);
    }
    if !x.hi.is_finite() {
        return (ONE, ZERO);
    }
    let lpre = a * x.ln() - x - lgamma(a);
    if lpre.hi < -800.0 {
        return if x.hi < a.hi { (ZERO, ONE) } else { (ONE, ZERO) };
    }
    if x.hi < a.hi + 1.0 {
        let mut t = ONE / a;
        let mut s = t;
        let mut n = 1.0;
        loop {
            t = t * x / (a + n);
            s = s + t;
            if t.hi.abs() < s.hi.abs() * 1e-33 || n > 5e6 {
                break;
            }
            n += 1.0;
        }
        let p = (lpre + s.ln()).exp();
        (p, ONE - p)
    } else {
        let tiny = dd(1e-280);
        let mut b = x + 1.0 - a;
        let mut c = ONE / tiny;
        let mut d = ONE / b;
        let mut h = d;
        let mut i = 1.0;
        loop {
            let an = -(dd(i) * (dd(i) - a));
            b = b + 2.0;
            d = an * d + b;
            if d.hi.abs() < 1e-280 {
                d = tiny;
            }
            c = b + an / c;
            if c.hi.abs() < 1e-280 {
                c = tiny;
            }
            d = ONE / d;
            let del = d * c;
            h = h * del;
            if (del - 1.0).hi.abs() < 1e-31 || i > 5e6 {
                break;
            }
            i += 1.0;
        }
        let q = (lpre + h.ln()).exp();
        (ONE - q, q)
    }
}

fn beta_cf(a: DD, b: DD, x: DD) -> DD {
    let tiny = 1e-280;
    let fix = |v: DD| if v.hi.abs() < tiny { dd(tiny) } else { v };
    let qab = a + b;
    let qap = a + 1.0;
    let qam = a - 1.0;
    let mut c = ONE;
    let mut d = ONE / fix(ONE - qab * x / qap);
    let mut h = d;
    let mut m = 1.0;
    loop {
        let m2 = 2.0 * m;
        let aa = dd(m) * (b - m) * x / ((qam + m2) * (a + m2));
        d = ONE / fix(ONE + aa * d);
        c = fix(ONE + aa / c);
        h = h * (d * c);
        let aa = -((a + m) * (qab + m) * x / ((a + m2) * (qap + m2)));
        d = ONE / fix(ONE + aa * d);
        c = fix(ONE + aa / c);
        let del = d * c;
        h = h * del;
        if (del - 1.0).hi.abs() < 1e-31 || m > 2e6 {
            break;
        }
        m += 1.0;
    }
    h
}

/// Both tails (I, 1 - I) of the regularised incomplete beta function at x,
/// where `y` is 1 - x given separately so that neither loses precision.
pub fn inc_beta(a: DD, b: DD, x: DD, y: DD) -> (DD, DD) {
    if x.hi <= 0.0 {
        return (ZERO, ONE);
    }
    if y.hi <= 0.0 {
        return (ONE, ZERO);
    }
    let lx = if x.hi < 0.5 { x.ln() } else { (-y).ln_1p() };
    let ly = if y.hi < 0.5 { y.ln() } else { (-x).ln_1p() };
    let lpre = a * lx + b * ly - lbeta(a, b);
    if x < (a + 1.0) / (a + b + 2.0) {
        let p = (lpre + beta_cf(a, b, x).ln() - a.ln()).exp();
        (p, ONE - p)
    } else {
        let q = (lpre + beta_cf(b, a, y).ln() - b.ln()).exp();
        (ONE - q, q)
    }
}

/// Standard normal tails (lower, upper).
pub fn normal(z: DD) -> (DD, DD) {
    if z.hi == f64::INFINITY {
        return (ONE, ZERO);
    }
    if z.hi == f64::NEG_INFINITY {
        return (ZERO, ONE);
    }
    let (p, q) = inc_gamma(HALF, z * z * 0.5);
    if z.hi >= 0.0 {
        (HALF + p * 0.5, q * 0.5)
    } else {
        (q * 0.5, HALF + p * 0.5)
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    /// Golden values computed with mpmath at 50 digits (tools/golden.py).
    #[test]
    fn golden() {
        let text = include_str!("../golden.txt");
        let mut n = 0;
        for line in text.lines() {
            let f: Vec<&str> = line.split_whitespace().collect();
            let v: Vec<f64> = f[1..].iter().map(|s| s.parse().unwrap()).collect();
            let (got, want) = match f[0] {
                "lgamma" => (lgamma(dd(v[0])), &v[1..]),
                "digamma" => (digamma(dd(v[0])), &v[1..]),
                "exp" => (dd(v[0]).exp(), &v[1..]),
                "ln" => (dd(v[0]).ln(), &v[1..]),
                "ln1p" => (dd(v[0]).ln_1p(), &v[1..]),
                "expm1" => (dd(v[0]).exp_m1(), &v[1..]),
                "atan" => (dd(v[0]).atan(), &v[1..]),
                "gammap" => (inc_gamma(dd(v[0]), dd(v[1])).0, &v[2..]),
                "gammaq" => (inc_gamma(dd(v[0]), dd(v[1])).1, &v[2..]),
                "betai" => (inc_beta(dd(v[0]), dd(v[1]), dd(v[2]), ONE - dd(v[2])).0, &v[3..]),
                "normal" => (normal(dd(v[0])).0, &v[1..]),
                _ => panic!(),
            };
            let want = dd(want[0]) + dd(want[1]);
            let err = (got - want).f().abs();
            let tol = 1e-22 * want.f().abs() + 1e-26;
            let tol = if matches!(f[0], "gammap" | "gammaq" | "betai" | "normal") { 1e-18 * want.f().abs() + 1e-300 } else { tol };
            assert!(err <= tol, "{line}: got {got:?} want {want:?} err {err:e}");
            n += 1;
        }
        assert!(n > 200);
    }
}
