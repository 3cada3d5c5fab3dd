//! Shared pieces of the oracles: error measures and tolerances.

use crate::dd::*;
use crate::refm::{self, Tails};
use crate::runner::Ctx;
use crate::spec::Spec;

pub const EPS: f64 = f64::EPSILON;

pub fn distance(got: f64, want: DD) -> f64 {
    if got.is_nan() {
        return f64::INFINITY;
    }
    if got.is_infinite() || !want.hi.is_finite() {
        return if got == want.hi { 0.0 } else { f64::INFINITY };
    }
    (dd(got) - want).hi.abs()
}

/// Fails unless |got - want| <= tol; records the ratio under `key`/name.
pub fn close(ctx: &mut Ctx, key: &str, spec: &Spec, got: f64, want: DD, tol: f64) -> Result<(), String> {
    let d = distance(got, want);
    let r = if d == 0.0 { 0.0 } else { d / tol };
    ctx.ratio(&format!("{}/{}", key, spec.name()), r);
    if d <= tol {
        Ok(())
    } else {
        Err(format!("{}: got {:e}, expected {:e}, off by {:.3e} (allowed {:.3e})", key, got, want.f(), d, tol))
    }
}

pub fn ensure(ok: bool, what: impl FnOnce() -> String) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(what())
    }
}

/// Largest relative rounding to expect in a value of the beta-like
/// standardised argument and in the shapes.
fn pert_blur(spec: &Spec) -> f64 {
    match spec {
        Spec::Pert { .. } => 10.0 * spec.kappa() * EPS,
        _ => 0.0,
    }
}

/// Absolute tolerance on the CDF at `x`. `t` are the exact tails.
pub fn cdf_tol(spec: &Spec, x: f64, t: &Tails) -> f64 {
    // Infinitely many spreads away the tail vanishes before its conditioning
    // can be told.
    let tol = cdf_tol_finite(spec, x, t);
    if tol.is_nan() { 1e-300 + 64.0 * EPS } else { tol }
}

fn cdf_tol_finite(spec: &Spec, x: f64, t: &Tails) -> f64 {
    let (lo, hi) = (t.lo.f(), t.hi.f());
    let floor = 1e-300;
    let (a, b) = spec.support();
    if x < a || x >= b || (x == a && !spec.is_discrete()) || x.is_infinite() {
        return floor;
    }
    floor
        + match spec {
            Spec::Bernoulli { .. } | Spec::BernoulliF { .. } => 2.0 * EPS * lo,
            Spec::Categorical { p } => {
                let total = p.iter().fold(ZERO, |s, &v| s + v);
                // A sum of what is not negative keeps its digits.
                lo * (EPS * (p.len() as f64 + 2.0) + 2.0 * (total - 1.0).hi.abs())
            }
            Spec::Uniform { .. } => 6.0 * EPS * lo,
            Spec::Triangular { a, c, .. } => {
                if x <= *c {
                    // An underflow of an intermediate is enlarged by the width.
                    16.0 * EPS * lo + 2e-323 / (c - a).min(1.0)
                } else {
                    4.0 * EPS + 16.0 * EPS * hi
                }
            }
            Spec::Exponential { .. } => 8.0 * EPS * lo,
            Spec::Laplace { mu, b } => {
                let z = ((x - mu) / b).abs();
                if x <= *mu {
                    (8.0 + 4.0 * z) * EPS * lo
                } else {
                    4.0 * EPS + (8.0 + 4.0 * z) * EPS * hi
                }
            }
            Spec::Logistic { mu, s } => {
                let z = ((x - mu) / s).abs();
                (8.0 + 4.0 * z) * EPS * lo.min(1e3 * hi) + 4.0 * EPS * lo
            }
            Spec::Cauchy { .. } => 12.0 * EPS * lo,
            Spec::Gaussian { mu, sigma } => {
                let z = ((x - mu) / sigma).abs();
                EPS * (8.0 * lo + (4.0 + 4.0 * z * z) * lo.min(hi))
            }
            Spec::Lognormal { mu, sigma } => {
                let l = x.ln();
                let z = ((l - mu) / sigma).abs();
                EPS * (8.0 * lo + (4.0 + 4.0 * z * z + 2.0 * (1.0 + z) * (l.abs() + mu.abs()) / sigma) * lo.min(hi))
            }
            Spec::Gamma { k, theta } => {
                let z = (x / theta).max(1e-300);
                // The prefactor z^k exp(-z) / Gamma(k) is evaluated through
                // logarithms of this size.
                let cond = k * (1.0 + z.ln().abs()) + z + if *k > 1.0 { k * k.ln() } else { 0.0 };
                // The incomplete gamma routine underneath drops to zero at
                // e^-88 and stops its series at 1e-14.
                1e-37 + EPS * (40.0 + 8.0 * cond) * lo.min(hi) + 200.0 * EPS * lo
            }
            Spec::Beta { .. } | Spec::Pert { .. } => beta_tol(spec, x, lo, hi),
            Spec::Binomial { .. } | Spec::BinomialF { .. } => {
                binomial_cdf_tol(spec, x, lo, hi)
            }
        }
}

/// The incomplete beta function is evaluated through a prefactor whose
/// logarithm cancels terms of order n ln n; beside that, whichever of p and q
/// was not given is rounded to one part in 2^53.
fn binomial_cdf_tol(spec: &Spec, x: f64, lo: f64, hi: f64) -> f64 {
    let n = refm::trials(spec);
    let k = x.floor() as u64;
    let (p, q) = refm::pq(spec);
    let nf = n as f64;
    let m0 = refm::ln_binomial_mass(n, p, q, k).f().exp();
    let m1 = refm::ln_binomial_mass(n, p, q, k + 1).f().exp();
    let kf = k as f64;
    let arg = EPS * ((nf - kf) * m0 + (kf + 1.0) * m1);
    if k == 0 {
        // A power, which may be had without either error.
        return EPS * (16.0 + 4.0 * nf * refm::ln_prob(q, p).f().abs()) * lo + 1e-300;
    }
    let cond = nf * (2.0 + nf.max(2.0).ln());
    EPS * (60.0 + 4.0 * cond) * lo.min(hi) + 100.0 * EPS * lo + 2.0 * arg
}

fn beta_tol(spec: &Spec, x: f64, lo: f64, hi: f64) -> f64 {
    let (al, be, a, b) = refm::beta_like(spec).unwrap();
    let w = b - a;
    let t = (dd(x) - a) / w;
    let u = (b - dd(x)) / w;
    let (al, be) = (al.f(), be.f());
    // Evaluated through logarithms of the prefactor t^al u^be / B(al, be).
    let l = |v: f64| v.max(1e-300).ln().abs();
    let s = al + be;
    let big = |v: f64| if v > 1.0 { v * v.ln() } else { 1.0 };
    let cond = al * l(t.f()) + be * l(u.f()) + big(al) + big(be) + big(s);
    // The argument itself is rounded to about one part in 2^52 of t.
    let lnf = refm::ln_density(spec, x).0.f();
    let f = (lnf + w.f().ln()).exp();
    let arg = f * t.f() * 3.0 * EPS;
    let arg = if arg.is_nan() { 1.0 } else { arg };
    // Next to the upper end the argument may round to the end itself.
    let arg = if u.f() < 64.0 * EPS { arg + 1.5 * hi } else { arg };
    let sh = pert_blur(spec) * (2.0 + l(t.f()).min(50.0) + l(u.f()).min(50.0));
    // The series underneath stops once a term falls below 1e-14; for a small
    // shape the terms that are left out are as many.
    let rest = 100.0 + 30.0 / al.min(be).min(1.0);
    // Just past the mean of a very skewed law the series needs up to 1 / t
    // terms, each of which is rounded and the last of which are left out.
    let (lead, base, other) = if al < s * t.f() { (be, u.f(), t.f()) } else { (al, t.f(), u.f()) };
    let long = EPS * 60.0 / other * (f * base / lead);
    let long = if long.is_nan() { 0.0 } else { long.min(1e-7 * lo.min(1.0)) };
    (EPS * (60.0 + 16.0 * cond) + sh) * lo.min(hi) + rest * EPS * lo + 2.0 * arg + long
}

/// Relative tolerance on a density, given the cancellation `cond`.
pub fn density_rel(spec: &Spec, x: f64, cond: f64) -> f64 {
    let base = EPS * (12.0 + 4.0 * cond);
    match spec {
        Spec::Beta { .. } | Spec::Pert { .. } => {
            let (al, be, a, b) = refm::beta_like(spec).unwrap();
            let w = b - a;
            let t = ((dd(x) - a) / w).f();
            let u = ((b - dd(x)) / w).f();
            let l = |v: f64| v.max(1e-300).ln().abs();
            let arg = (be - 1.0).f().abs() * t / u * 4.0 * EPS + (al - 1.0).f().abs() * 4.0 * EPS;
            base + arg + pert_blur(spec) * (4.0 + l(t) + l(u))
        }
        _ => base,
    }
}
