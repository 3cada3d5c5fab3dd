//! The reference model: textbook definitions of the fourteen distributions,
//! evaluated in double-double arithmetic.

use crate::dd::*;
use crate::spec::Spec;

pub struct Tails {
    pub lo: DD,
    pub hi: DD,
}

fn tails(lo: DD, hi: DD) -> Tails {
    Tails { lo, hi }
}

/// (success, failure) probabilities of a Bernoulli or binomial spec.
pub fn pq(spec: &Spec) -> (DD, DD) {
    match spec {
        Spec::Bernoulli { p } | Spec::Binomial { p, .. } => (dd(*p), ONE - dd(*p)),
        Spec::BernoulliF { q } | Spec::BinomialF { q, .. } => (ONE - dd(*q), dd(*q)),
        _ => unreachable!(),
    }
}

pub fn trials(spec: &Spec) -> u64 {
    match spec {
        Spec::Bernoulli { .. } | Spec::BernoulliF { .. } => 1,
        Spec::Binomial { n, .. } | Spec::BinomialF { n, .. } => *n,
        _ => unreachable!(),
    }
}

/// Shape parameters and interval (alpha, beta, a, b) of a beta-like spec.
pub fn beta_like(spec: &Spec) -> Option<(DD, DD, DD, DD)> {
    match spec {
        Spec::Beta { alpha, beta, a, b } => Some((dd(*alpha), dd(*beta), dd(*a), dd(*b))),
        Spec::Pert { a, b, c } => {
            let (a, b, c) = (dd(*a), dd(*b), dd(*c));
            let w = c - a;
            Some((ONE + 4.0 * (b - a) / w, ONE + 4.0 * (c - b) / w, a, c))
        }
        _ => None,
    }
}

/// Probability of k or fewer successes, and of more than k.
pub fn binomial_tails(n: u64, p: DD, q: DD, k: u64) -> Tails {
    if k >= n {
        return tails(ONE, ZERO);
    }
    let (lo, hi) = inc_beta(dd((n - k) as f64), dd(k as f64 + 1.0), q, p);
    tails(lo, hi)
}

pub fn ln_binomial_mass(n: u64, p: DD, q: DD, k: u64) -> DD {
    if k > n {
        return dd(f64::NEG_INFINITY);
    }
    let (nf, kf) = (dd(n as f64), dd(k as f64));
    let mut s = ZERO;
    if k > 0 && k < n {
        s = lgamma(nf + 1.0) - lgamma(kf + 1.0) - lgamma(nf - kf + 1.0);
    }
    if k > 0 {
        s = s + kf * ln_prob(p, q);
    }
    if k < n {
        s = s + (nf - kf) * ln_prob(q, p);
    }
    s
}

/// ln(p) where q = 1 - p.
pub fn ln_prob(p: DD, q: DD) -> DD {
    if p.hi > 0.7 {
        (-q).ln_1p()
    } else {
        p.ln()
    }
}

pub fn cdf(spec: &Spec, x: f64) -> Tails {
    let (l, h) = spec.support();
    if x < l || x == f64::NEG_INFINITY {
        return tails(ZERO, ONE);
    }
    if x >= h || x == f64::INFINITY {
        return tails(ONE, ZERO);
    }
    let xd = dd(x);
    match spec {
        Spec::Bernoulli { .. } | Spec::BernoulliF { .. } => {
            let (p, q) = pq(spec);
            tails(q, p)
        }
        Spec::Binomial { .. } | Spec::BinomialF { .. } => {
            let (p, q) = pq(spec);
            binomial_tails(trials(spec), p, q, x as u64)
        }
        Spec::Categorical { p } => {
            let k = x as usize;
            let s = |r: &[f64]| r.iter().fold(ZERO, |s, &v| s + v);
            tails(s(&p[..=k]), s(&p[k + 1..]))
        }
        Spec::Beta { .. } | Spec::Pert { .. } => {
            let (al, be, a, b) = beta_like(spec).unwrap();
            let w = b - a;
            let (lo, hi) = inc_beta(al, be, (xd - a) / w, (b - xd) / w);
            tails(lo, hi)
        }
        Spec::Cauchy { x0, gamma } => {
            let z = (xd - *x0) / *gamma;
            // atan(1/|z|)/pi is the small tail.
            let t = if z.hi.abs() > 1.0 { (ONE / z.abs()).atan() / PI } else { HALF - z.abs().atan() / PI };
            if z.hi < 0.0 {
                tails(t, ONE - t)
            } else {
                tails(ONE - t, t)
            }
        }
        Spec::Exponential { lambda } => {
            let e = -(xd * *lambda);
            tails(-e.exp_m1(), e.exp())
        }
        Spec::Gamma { k, theta } => {
            let (lo, hi) = inc_gamma(dd(*k), xd / *theta);
            tails(lo, hi)
        }
        Spec::Gaussian { mu, sigma } => {
            let (lo, hi) = normal((xd - *mu) / *sigma);
            tails(lo, hi)
        }
        Spec::Lognormal { mu, sigma } => {
            if x <= 0.0 {
                return tails(ZERO, ONE);
            }
            let (lo, hi) = normal((xd.ln() - *mu) / *sigma);
            tails(lo, hi)
        }
        Spec::Laplace { mu, b } => {
            let z = (xd - *mu) / *b;
            let t = HALF * (-z.abs()).exp();
            if z.hi <= 0.0 {
                tails(t, ONE - t)
            } else {
                tails(ONE - t, t)
            }
        }
        Spec::Logistic { mu, s } => {
            let z = (xd - *mu) / *s;
            let e = (-z.abs()).exp();
            let (small, large) = (e / (ONE + e), ONE / (ONE + e));
            if z.hi <= 0.0 {
                tails(small, large)
            } else {
                tails(large, small)
            }
        }
        Spec::Triangular { a, b, c } => {
            let (a, b, c) = (dd(*a), dd(*b), dd(*c));
            if xd <= c && c > a {
                let t = ((xd - a) / (b - a)) * ((xd - a) / (c - a));
                tails(t, ONE - t)
            } else {
                let t = ((b - xd) / (b - a)) * ((b - xd) / (b - c));
                tails(ONE - t, t)
            }
        }
        Spec::Uniform { a, b } => {
            let (a, b) = (dd(*a), dd(*b));
            tails((xd - a) / (b - a), (b - xd) / (b - a))
        }
    }
}

/// Natural logarithm of the density at an interior point of the support,
/// together with the sum of the absolute values of the terms it is made of
/// (how much cancellation any evaluation in logarithms has to live with).
pub fn ln_density(spec: &Spec, x: f64) -> (DD, f64) {
    let xd = dd(x);
    match spec {
        Spec::Beta { .. } | Spec::Pert { .. } => {
            let (al, be, a, b) = beta_like(spec).unwrap();
            let w = b - a;
            let t = (xd - a) / w;
            let u = (b - xd) / w;
            let lt = if t.hi < 0.5 { t.ln() } else { (-u).ln_1p() };
            let lu = if u.hi < 0.5 { u.ln() } else { (-t).ln_1p() };
            let (t1, t2) = ((al - 1.0) * lt, (be - 1.0) * lu);
            let cond = t1.hi.abs()
                + t2.hi.abs()
                + lgamma(al).hi.abs()
                + lgamma(be).hi.abs()
                + lgamma(al + be).hi.abs()
                + w.ln().hi.abs();
            (t1 + t2 - lbeta(al, be) - w.ln(), cond)
        }
        Spec::Cauchy { x0, gamma } => {
            let z = (xd - *x0) / *gamma;
            let v = if z.hi.abs() < 1e10 { (ONE + z.sqr()).ln() } else { 2.0 * z.abs().ln() };
            (-(PI * *gamma).ln() - v, 0.0)
        }
        Spec::Exponential { lambda } => {
            let t = xd * *lambda;
            (dd(*lambda).ln() - t, t.hi.abs())
        }
        Spec::Gamma { k, theta } => {
            let (k, th) = (dd(*k), dd(*theta));
            let z = xd / th;
            let l = z.ln();
            let t = (k - 1.0) * l;
            let cond = (k - 1.0).hi.abs() * (xd.ln().hi.abs() + th.ln().hi.abs())
                + z.hi
                + lgamma(k).hi.abs()
                + th.ln().hi.abs();
            (t - z - lgamma(k) - th.ln(), cond)
        }
        Spec::Gaussian { mu, sigma } => {
            let z = (xd - *mu) / *sigma;
            let e = z.sqr() * 0.5;
            (-e - ((PI * 2.0).sqrt() * *sigma).ln(), e.hi)
        }
        Spec::Lognormal { mu, sigma } => {
            let l = xd.ln();
            let z = (l - *mu) / *sigma;
            let e = z.sqr() * 0.5;
            let cond = e.hi + z.hi.abs() * (l.hi.abs() + mu.abs()) / sigma;
            (-e - ((PI * 2.0).sqrt() * *sigma * xd).ln(), cond)
        }
        Spec::Laplace { mu, b } => {
            let z = ((xd - *mu) / *b).abs();
            (-z - (dd(*b) * 2.0).ln(), z.hi)
        }
        Spec::Logistic { mu, s } => {
            let z = ((xd - *mu) / *s).abs();
            let e = (-z).exp();
            (-z - 2.0 * e.ln_1p() - dd(*s).ln(), z.hi)
        }
        Spec::Triangular { a, b, c } => {
            let (a, b, c) = (dd(*a), dd(*b), dd(*c));
            let top = 2.0 / (b - a);
            let v = if xd < c {
                top * (xd - a) / (c - a)
            } else if xd > c {
                top * (b - xd) / (b - c)
            } else {
                top
            };
            (v.ln(), 0.0)
        }
        Spec::Uniform { a, b } => (-(dd(*b) - dd(*a)).ln(), 0.0),
        _ => unreachable!(),
    }
}

pub struct Moments {
    pub mean: DD,
    pub var: DD,
    pub skew: DD,
    pub kurt: DD,
}

/// Central moments from raw moments m1..m4 (about a convenient origin).
fn from_raw(m: [DD; 4]) -> Moments {
    let [m1, m2, m3, m4] = m;
    let var = m2 - m1 * m1;
    let c3 = m3 - 3.0 * m1 * m2 + 2.0 * m1 * m1 * m1;
    let c4 = m4 - 4.0 * m1 * m3 + 6.0 * m1 * m1 * m2 - 3.0 * m1 * m1 * m1 * m1;
    Moments { mean: m1, var, skew: c3 / (var * var.sqrt()), kurt: c4 / (var * var) - 3.0 }
}

fn from_cumulants(k: [DD; 4]) -> Moments {
    Moments { mean: k[0], var: k[1], skew: k[2] / (k[1] * k[1].sqrt()), kurt: k[3] / (k[1] * k[1]) }
}

/// None for the Cauchy distribution (no moments).
pub fn moments(spec: &Spec) -> Option<Moments> {
    Some(match spec {
        Spec::Bernoulli { .. } | Spec::BernoulliF { .. } | Spec::Binomial { .. } | Spec::BinomialF { .. } => {
            let (p, q) = pq(spec);
            let n = trials(spec) as f64;
            let v = p * q;
            // Over powers of the variance, without going through them: they
            // may be too small to hold.
            let var = n * v;
            Moments { mean: n * p, var, skew: (q - p) / var.sqrt(), kurt: (ONE - 6.0 * v) / var }
        }
        Spec::Categorical { p } => {
            let total = p.iter().fold(ZERO, |s, &v| s + v);
            let mean = p.iter().enumerate().fold(ZERO, |s, (i, &v)| s + i as f64 * dd(v));
            let c = |e: u32| {
                p.iter().enumerate().fold(ZERO, |s, (i, &v)| s + (dd(i as f64) - mean).powi(e) * v)
            };
            let _ = total;
            let var = c(2);
            Moments { mean, var, skew: c(3) / (var * var.sqrt()), kurt: c(4) / (var * var) - 3.0 }
        }
        Spec::Beta { .. } | Spec::Pert { .. } => {
            // Standard moments through the third and fourth central moments
            // of a gamma ratio: raw moments are products of
            // (alpha + r)/(alpha + beta + r); to avoid cancellation for
            // concentrated shapes use the recurrence on central moments.
            let (al, be, a, b) = beta_like(spec).unwrap();
            let s = al + be;
            let w = b - a;
            let m = al / s;
            let n = be / s;
            let v = m * n / (s + 1.0);
            // Stein/Pearson recurrence: for the beta law with F(x) = x(1-x),
            // mu_{r+1} (s + r) = r (m n mu_{r-1} + (n - m) mu_r).
            let mu2 = v;
            let mu3 = 2.0 * ((n - m) * mu2) / (s + 2.0);
            // With the 3 taken out of mu_4 / mu_2^2 by hand, or large shapes
            // leave nothing.
            let kurt = 6.0 * (s + 1.0) * (n - m) * (n - m) / ((s + 2.0) * (s + 3.0) * m * n) - 6.0 / (s + 3.0);
            let mean = match spec {
                Spec::Pert { a, b, c } => (dd(*a) + 4.0 * dd(*b) + dd(*c)) / 6.0,
                _ => a + w * m,
            };
            Moments { mean, var: v * w * w, skew: mu3 / (mu2 * mu2.sqrt()), kurt }
        }
        Spec::Cauchy { .. } => return None,
        Spec::Exponential { lambda } => {
            let t = ONE / *lambda;
            Moments { mean: t, var: t * t, ..from_cumulants([ONE, ONE, dd(2.0), dd(6.0)]) }
        }
        Spec::Gamma { k, theta } => {
            let (k, t) = (dd(*k), dd(*theta));
            Moments { mean: k * t, var: k * t * t, skew: dd(2.0) / k.sqrt(), kurt: dd(6.0) / k }
        }
        Spec::Gaussian { mu, sigma } => {
            Moments { mean: dd(*mu), var: dd(*sigma).sqr(), skew: ZERO, kurt: ZERO }
        }
        Spec::Laplace { mu, b } => Moments { mean: dd(*mu), var: 2.0 * dd(*b).sqr(), skew: ZERO, kurt: dd(3.0) },
        Spec::Logistic { mu, s } => {
            Moments { mean: dd(*mu), var: (PI * *s).sqr() / 3.0, skew: ZERO, kurt: dd(6.0) / 5.0 }
        }
        Spec::Lognormal { mu, sigma } => {
            // With w = exp(sigma^2): the standard cumulant ratios, arranged
            // in w - 1 so that small sigma does not cancel.
            let s2 = dd(*sigma).sqr();
            let e = s2.exp_m1();
            let w = e + 1.0;
            let mean = (dd(*mu) + s2 * 0.5).exp();
            Moments {
                mean,
                var: e * (2.0 * dd(*mu) + s2).exp(),
                skew: e.sqrt() * (w + 2.0),
                // w^4 + 2w^3 + 3w^2 - 6 = e (w^3 + 3 w^2 + 6 w + 6)
                kurt: e * (w * w * w + 3.0 * w * w + 6.0 * w + 6.0),
            }
        }
        Spec::Triangular { a, b, c } => {
            // Integrate the two pieces around the mode, in a unit in which
            // powers neither overflow nor underflow.
            let unit = 2f64.powi(((b - a).log2().floor() as i32).clamp(-1000, 1000));
            let (a, b, c) = (dd(*a) / unit, dd(*b) / unit, dd(*c) / unit);
            let (l, r) = (c - a, b - c);
            let w = l + r;
            // E[(X - c)^j]: left piece weight l/w with X = c - l*V, right
            // piece weight r/w with X = c + r*V, V with density 2(1 - v):
            // E[V^j] = 2/((j+1)(j+2)).
            let mom = |j: u32| {
                let ev = dd(2.0) / (((j + 1) * (j + 2)) as f64);
                let sign = if j % 2 == 0 { 1.0 } else { -1.0 };
                ev * (l.powi(j) * l * sign + r.powi(j) * r) / w
            };
            let m = from_raw([mom(1), mom(2), mom(3), mom(4)]);
            Moments { mean: (c + m.mean) * unit, var: m.var * unit * unit, ..m }
        }
        Spec::Uniform { a, b } => {
            let w = dd(*b) - dd(*a);
            Moments { mean: (dd(*a) + dd(*b)) * 0.5, var: w * w / 12.0, skew: ZERO, kurt: dd(-6.0) / 5.0 }
        }
    })
}

/// Shannon or differential entropy in nats, and the sum of the absolute
/// values of the terms of its usual closed form.
pub fn entropy(spec: &Spec) -> (DD, f64) {
    let two_pi = PI * 2.0;
    match spec {
        Spec::Bernoulli { .. } | Spec::BernoulliF { .. } => {
            let (p, q) = pq(spec);
            (-(p * ln_prob(p, q)) - q * ln_prob(q, p), 1.0)
        }
        Spec::Binomial { .. } | Spec::BinomialF { .. } => binomial_entropy(spec),
        Spec::Categorical { p } => {
            let s = p.iter().filter(|&&v| v > 0.0).fold(ZERO, |s, &v| s - dd(v) * dd(v).ln());
            (s, 1.0 + s.hi)
        }
        Spec::Beta { .. } | Spec::Pert { .. } => {
            let (al, be, a, b) = beta_like(spec).unwrap();
            let s = al + be;
            let t = [
                (b - a).ln(),
                lgamma(al),
                lgamma(be),
                -lgamma(s),
                -((al - 1.0) * digamma(al)),
                -((be - 1.0) * digamma(be)),
                (s - 2.0) * digamma(s),
            ];
            sum_cond(&t)
        }
        Spec::Cauchy { gamma, .. } => sum_cond(&[(PI * 4.0).ln(), dd(*gamma).ln()]),
        Spec::Exponential { lambda } => sum_cond(&[ONE, -dd(*lambda).ln()]),
        Spec::Gamma { k, theta } => {
            let k = dd(*k);
            sum_cond(&[k, dd(*theta).ln(), lgamma(k), (ONE - k) * digamma(k)])
        }
        Spec::Gaussian { sigma, .. } => sum_cond(&[HALF, two_pi.ln() * 0.5, dd(*sigma).ln()]),
        Spec::Laplace { b, .. } => sum_cond(&[ONE, LN2, dd(*b).ln()]),
        Spec::Logistic { s, .. } => sum_cond(&[dd(2.0), dd(*s).ln()]),
        Spec::Lognormal { mu, sigma } => sum_cond(&[HALF, two_pi.ln() * 0.5, dd(*sigma).ln(), dd(*mu)]),
        Spec::Triangular { a, b, .. } => sum_cond(&[HALF, (dd(*b) - dd(*a)).ln(), -LN2]),
        Spec::Uniform { a, b } => sum_cond(&[(dd(*b) - dd(*a)).ln()]),
    }
}

fn sum_cond(t: &[DD]) -> (DD, f64) {
    (t.iter().fold(ZERO, |s, &v| s + v), t.iter().map(|v| v.hi.abs()).sum())
}

fn binomial_entropy(spec: &Spec) -> (DD, f64) {
    let (p, q) = pq(spec);
    let n = trials(spec);
    if n == 0 {
        return (ZERO, 1.0);
    }
    let (lp, lq) = (ln_prob(p, q), ln_prob(q, p));
    let m = ((n as f64 + 1.0) * p.f()).floor().min(n as f64).max(0.0) as u64;
    let lm = ln_binomial_mass(n, p, q, m);
    let mut sum = -(lm.exp() * lm);
    let logit = lp - lq;
    let mut l = lm;
    let mut k = m;
    while k < n {
        l = l + (dd((n - k) as f64) / (k as f64 + 1.0)).ln() + logit;
        k += 1;
        let t = l.exp() * l;
        sum = sum - t;
        if t.hi.abs() < 1e-26 {
            break;
        }
    }
    let mut l = lm;
    let mut k = m;
    while k > 0 {
        l = l + (dd(k as f64) / ((n - k) as f64 + 1.0)).ln() - logit;
        k -= 1;
        let t = l.exp() * l;
        sum = sum - t;
        if t.hi.abs() < 1e-26 {
            break;
        }
    }
    (sum, 1.0 + sum.hi.abs())
}

/// The exact discrete quantile: the least k with P(X <= k) >= u.
/// Only used to aim generators and to describe failures.
pub fn quantile_edge(spec: &Spec, u: f64) -> f64 {
    // Bisection on the reference CDF over a bracket found by doubling.
    let (l, h) = spec.support();
    let (c, s) = spec.aim();
    let s = if s > 0.0 && s.is_finite() { s } else { 1.0 };
    let (mut lo, mut hi) = (l, h);
    let upper = u > 0.5;
    let below = |x: f64| {
        let t = cdf(spec, x);
        if upper {
            t.hi.f() > 1.0 - u
        } else {
            t.lo.f() < u
        }
    };
    if !lo.is_finite() {
        let mut d = s;
        lo = c - d;
        while !below(lo) && d < 1e300 {
            d *= 4.0;
            lo = c - d;
        }
    }
    if !hi.is_finite() {
        let mut d = s;
        hi = c + d;
        while below(hi) && d < 1e300 {
            d *= 4.0;
            hi = c + d;
        }
    }
    for _ in 0..200 {
        // Geometric bisection near zero for half-line and unit-interval laws.
        let mid = if l == 0.0 && lo >= 0.0 && hi / lo.max(1e-300) > 4.0 { (lo.max(1e-300) * hi).sqrt() } else { 0.5 * (lo + hi) };
        if mid <= lo || mid >= hi {
            break;
        }
        if below(mid) {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    hi
}
