//! Moments and entropy.

use crate::dd::*;
use crate::gen::*;
use crate::oracle::*;
use crate::p_cdf::{stirlerr_count, stirlerr_factor, STIRLERR};
use crate::refm::{self, Moments};
use crate::runner::{Ctx, Family, Property};
use crate::spec::Spec;
use proptest::prelude::*;

fn total_error(spec: &Spec) -> f64 {
    match spec {
        Spec::Categorical { p } => (p.iter().fold(ZERO, |s, &v| s + v) - 1.0).hi.abs(),
        _ => 0.0,
    }
}

/// Absolute tolerances for (mean, variance, skewness, kurtosis).
fn tolerances(spec: &Spec, m: &Moments) -> [f64; 4] {
    let (mean, var, skew, kurt) = (m.mean.f().abs(), m.var.f(), m.skew.f().abs(), m.kurt.f().abs());
    let rel = |r: f64| [r * mean, r * var, r * skew, r * kurt];
    match spec {
        Spec::Bernoulli { .. } | Spec::BernoulliF { .. } | Spec::Binomial { .. } | Spec::BinomialF { .. } => {
            [8.0 * EPS * mean, 16.0 * EPS * var, EPS * (16.0 * skew + 8.0 / var.sqrt()), EPS * (32.0 * kurt + 32.0 / var)]
        }
        Spec::Categorical { p } => {
            let k = p.len() as f64;
            let e = EPS * (16.0 + 4.0 * k);
            let t = total_error(spec);
            // How far the mean may be off enters the variance squared.
            let sd = var.sqrt();
            let off = (e + 2.0 * t) * mean;
            let tv = (2.0 * e + 2.0 * t) * var + 4.0 * off * off + 16.0 * EPS * mean * sd;
            let r = (tv / var).min(1.0);
            let o = (off / sd).min(1.0);
            // Third and fourth absolute central moments over powers of the
            // deviation bound what cancels in the sums.
            let c = |j: i32| {
                p.iter().enumerate().map(|(i, &v)| (i as f64 - m.mean.f()).abs().powi(j) * v).sum::<f64>() / var.powf(j as f64 / 2.0)
            };
            [e * mean.max(EPS) + t * k, tv, (4.0 * e + 2.0 * r) * (skew + c(3)) + 4.0 * o, (4.0 * e + 4.0 * r) * (kurt + 3.0 + c(4)) + 8.0 * o * (1.0 + c(3))]
        }
        Spec::Beta { a, b, .. } | Spec::Pert { a, c: b, .. } => {
            let (al, be, _, _) = refm::beta_like(spec).unwrap();
            let (al, be) = (al.f(), be.f());
            let s = al + be;
            let big = a.abs().max(b.abs());
            // The shapes of a PERT law come out of differences of its ends.
            let blur = if matches!(spec, Spec::Pert { .. }) { spec.kappa() } else { 0.0 };
            let cond = 6.0 * ((al - be) * (al - be) * (s + 1.0) + al * be * (s + 2.0)) / (al * be * (s + 2.0) * (s + 3.0));
            [16.0 * EPS * big, EPS * (64.0 + 32.0 * blur) * var, EPS * (64.0 * skew + 64.0 * blur), EPS * (64.0 * kurt + 32.0 * cond + 64.0 * blur)]
        }
        Spec::Triangular { a, b, .. } => {
            let k = spec.kappa();
            [16.0 * EPS * a.abs().max(b.abs()), EPS * (64.0 + 16.0 * k) * var, EPS * (64.0 + 16.0 * k), 8.0 * EPS]
        }
        Spec::Uniform { a, b } => [8.0 * EPS * a.abs().max(b.abs()), 16.0 * EPS * var, 1e-300, 8.0 * EPS],
        Spec::Lognormal { mu, sigma } => {
            let s2 = sigma * sigma;
            [
                EPS * (8.0 + 4.0 * (mu.abs() + s2)) * mean,
                EPS * (16.0 + 8.0 * (mu.abs() + s2)) * var,
                EPS * (32.0 + 16.0 * s2) * skew,
                EPS * (32.0 + 32.0 * s2) * kurt,
            ]
        }
        Spec::Gaussian { .. } | Spec::Laplace { .. } | Spec::Logistic { .. } => {
            let r = rel(16.0 * EPS);
            [r[0], r[1], 1e-300, r[3] + 1e-300]
        }
        _ => rel(16.0 * EPS),
    }
}

fn degenerate(m: &Moments) -> bool {
    // No spread, or none that can be told from rounding.
    !(m.var.f() > 1e-290)
}

fn first_two(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let Some(m) = refm::moments(&c.spec) else { return Ok(()) };
    let tol = tolerances(&c.spec, &m);
    let (mean, var, dev) = (d.mean().unwrap(), d.variance().unwrap(), d.deviation().unwrap());
    close(ctx, "mean", &c.spec, mean, m.mean, tol[0])?;
    if !(m.var.f() < 1e290) {
        // The square of the deviation is not a number any more.
        ctx.label("out of range");
        return ensure(var > 1e285 && dev > 1e142, || format!("range: variance {:e}, deviation {:e}", var, dev));
    }
    let tol_var = tol[1] + 1e-300;
    close(ctx, "variance", &c.spec, var, m.var, tol_var)?;
    ensure(var >= 0.0, || format!("sign: variance {:e}", var))?;
    ensure(dev >= 0.0, || format!("sign: deviation {:e}", dev))?;
    // The deviation is the square root of the variance, both as reported...
    ensure((dev - var.sqrt()).abs() <= 8.0 * EPS * dev + 1e-160, || format!("root: deviation {:e} against variance {:e}", dev, var))?;
    // ... and as it should be.
    if m.var.f() > 1e-280 {
        let want = m.var.sqrt();
        close(ctx, "deviation", &c.spec, dev, want, want.f() * (8.0 * EPS + tol_var / m.var.f()))?;
    }
    let (a, b) = c.spec.support();
    let big = if a.is_finite() && b.is_finite() { a.abs().max(b.abs()) } else { 0.0 };
    ensure(mean >= a - 16.0 * EPS * big && mean <= b + 16.0 * EPS * big + 1e-12 * b.abs().min(1e300), || format!("support: mean {:e}", mean))?;
    ctx.nontrivial = !degenerate(&m);
    Ok(())
}

/// Laws with the deviation for a parameter, at scales whose squares are not
/// numbers any more.
fn scales(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let (mean, dev) = match c.spec {
        Spec::Gaussian { mu, sigma } => (dd(mu), dd(sigma)),
        Spec::Laplace { mu, b } => (dd(mu), dd(2.0).sqrt() * dd(b)),
        Spec::Exponential { lambda } => (dd(1.0 / lambda), dd(1.0 / lambda)),
        _ => return Ok(()),
    };
    close(ctx, "mean", &c.spec, d.mean().unwrap(), mean, 4.0 * EPS * mean.f().abs())?;
    close(ctx, "deviation", &c.spec, d.deviation().unwrap(), dev, 8.0 * EPS * dev.f())?;
    let var = d.variance().unwrap();
    ensure(var >= 0.0, || format!("sign: variance {:e}", var))?;
    ctx.nontrivial = !(dev.f() > 1e-150 && dev.f() < 1e150);
    Ok(())
}

/// Lognormal laws where a part of the variance is not a number but the whole
/// may be.
fn lognormals(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let Spec::Lognormal { mu, sigma } = c.spec else { return Ok(()) };
    let s2 = dd(sigma).sqr();
    let e = s2 + mu;
    let (mean, var, dev) = (d.mean().unwrap(), d.variance().unwrap(), d.deviation().unwrap());
    let rel = |k: f64| EPS * (16.0 + 8.0 * k * (mu.abs() + s2.f()));
    let check = |ctx: &mut Ctx, what: &str, got: f64, ln: DD, times: DD, k: f64| {
        let top = (ln + times.ln()).f();
        if top > 700.0 {
            return ensure(got > 1e300, || format!("{}: got {:e}, expected e^{:.2}", what, got, top));
        }
        if top < -690.0 {
            return ensure(got >= 0.0 && got < 1e-295, || format!("{}: got {:e}, expected e^{:.2}", what, got, top));
        }
        let h = (ln * 0.5).exp();
        let want = times * h * h;
        close(ctx, what, &c.spec, got, want, rel(k) * want.f())
    };
    check(ctx, "mean", mean, s2 * 0.5 + mu, ONE, 1.0)?;
    let part = ZERO - (ZERO - s2).exp_m1();
    check(ctx, "variance", var, e * 2.0, part, 2.0)?;
    if e.f().abs() < 340.0 {
        check(ctx, "deviation", dev, e, part.sqrt(), 2.0)?;
    } else {
        ensure(dev >= 0.0, || format!("range: deviation {:e}", dev))?;
    }
    ctx.nontrivial = s2.f() > 1.0 && var > 0.0 && var < f64::INFINITY;
    Ok(())
}

fn broad() -> S<Spec> {
    (pow10(-4.0, 2.0), prop_oneof![4 => -1.0..1.0f64, 1 => -1.2..1.2f64], any::<bool>())
        .prop_map(|(sigma, t, plain)| Spec::Lognormal { mu: if plain { 1000.0 * t } else { 350.0 * t - sigma * sigma }, sigma })
        .boxed()
}

fn at_scales() -> S<Spec> {
    let s = || pow10(-300.0, 300.0);
    prop_oneof![
        (s(), -4.0..4.0f64).prop_map(|(sigma, m)| Spec::Gaussian { mu: m * sigma, sigma }),
        (s(), -4.0..4.0f64).prop_map(|(b, m)| Spec::Laplace { mu: m * b, b }),
        s().prop_map(|lambda| Spec::Exponential { lambda }),
    ]
    .boxed()
}

pub fn p10() -> Property {
    Property {
        id: "P10",
        rule: "random distribution of every family with moments (also wild: parameters many orders of magnitude apart; and vast: shapes of 1e±30); mean, variance, deviation against closed forms in double-double, within a stated rounding bound; and the deviations of Gaussian, Laplace and exponential laws at scales of 10^±300; and of lognormal laws with sigma to 100, parts of whose variance are out of range (broad); non-trivial when the variance is not zero (scales: when its square root is beyond 10^±150)",
        families: vec![
            Family { name: "continuous", strategy: || bare(continuous()), oracle: first_two, quick: 1_600_000, thorough: 80_000_000, chunk: 1000 },
            Family { name: "wild", strategy: || bare(wild()), oracle: first_two, quick: 800_000, thorough: 40_000_000, chunk: 1000 },
            Family { name: "discrete", strategy: || bare(prop_oneof![4 => discrete(), 2 => binomial_spec(9.0), 1 => huge()].boxed()), oracle: first_two, quick: 1_200_000, thorough: 60_000_000, chunk: 1000 },
            Family { name: "vast", strategy: || bare(vast()), oracle: first_two, quick: 400000, thorough: 20000000, chunk: 1000 },
            Family { name: "long", strategy: || bare(long()), oracle: first_two, quick: 12_000, thorough: 600_000, chunk: 50 },
            Family { name: "scales", strategy: || bare(at_scales()), oracle: scales, quick: 200_000, thorough: 10_000_000, chunk: 1000 },
            Family { name: "broad", strategy: || bare(broad()), oracle: lognormals, quick: 200_000, thorough: 10_000_000, chunk: 1000 },
        ],
    }
}

fn shape(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let Some(m) = refm::moments(&c.spec) else { return Ok(()) };
    if degenerate(&m) {
        return Ok(());
    }
    let tol = tolerances(&c.spec, &m);
    let (skew, kurt) = (d.skewness().unwrap(), d.kurtosis().unwrap());
    close(ctx, "skewness", &c.spec, skew, m.skew, tol[2])?;
    close(ctx, "kurtosis", &c.spec, kurt, m.kurt, tol[3])?;
    // Pearson's inequality.
    let slack = tol[3] + 3.0 * tol[2] * (1.0 + skew.abs()) + EPS * 64.0 * (1.0 + skew * skew);
    ensure(kurt + 2.0 - skew * skew >= -slack, || format!("pearson: kurtosis {:e} with skewness {:e}", kurt, skew))?;
    ctx.nontrivial = true;
    Ok(())
}

pub fn p11() -> Property {
    Property {
        id: "P11",
        rule: "random distribution of every family with moments and a positive variance (also wild: parameters many orders of magnitude apart; and vast: shapes of 1e±30); skewness and excess kurtosis against closed forms in double-double, and Pearson's inequality between them; non-trivial when the variance is not zero",
        families: vec![
            Family { name: "continuous", strategy: || bare(continuous()), oracle: shape, quick: 1_600_000, thorough: 80_000_000, chunk: 1000 },
            Family { name: "wild", strategy: || bare(wild()), oracle: shape, quick: 800_000, thorough: 40_000_000, chunk: 1000 },
            Family { name: "discrete", strategy: || bare(prop_oneof![4 => discrete(), 2 => binomial_spec(9.0), 1 => huge()].boxed()), oracle: shape, quick: 1_200_000, thorough: 60_000_000, chunk: 1000 },
            Family { name: "vast", strategy: || bare(vast()), oracle: shape, quick: 400000, thorough: 20000000, chunk: 1000 },
            Family { name: "long", strategy: || bare(long()), oracle: shape, quick: 12_000, thorough: 600_000, chunk: 50 },
        ],
    }
}

// --- P12: entropy ----------------------------------------------------------

/// The entropy that the masses of finding `binomial-stirlerr-11` add up to.
fn perturbed_entropy(spec: &Spec) -> DD {
    let (p, q) = refm::pq(spec);
    let n = refm::trials(spec);
    let (mut h, _) = refm::entropy(spec);
    let mut ks: Vec<u64> = if n == 11 { (0..=11).collect() } else { vec![11, n - 11] };
    ks.dedup();
    for k in ks {
        let l = refm::ln_binomial_mass(n, p, q, k);
        let f = dd(stirlerr_factor(n, k));
        let m = l.exp();
        h = h + m * l - (m * f) * (l + f.ln());
    }
    h
}

fn entropy(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let h = d.entropy();
    ensure(!h.is_nan(), || "nan: the entropy is NaN".to_string())?;
    let (want, cond) = refm::entropy(&c.spec);
    ctx.nontrivial = want.f() != 0.0;
    let tol = match &c.spec {
        Spec::Binomial { .. } | Spec::BinomialF { .. } => {
            let n = refm::trials(&c.spec);
            let (p, q) = refm::pq(&c.spec);
            let v = n as f64 * (p * q).f();
            // The masses are off by a few units times the deviation.
            let sum = EPS * (64.0 + 32.0 * (n as f64).sqrt()) * cond;
            if n > 9_990 && v > 79.9 {
                ctx.label("normal approximation");
                0.1 / v + sum
            } else {
                sum
            }
        }
        Spec::Categorical { p } => EPS * (16.0 + p.len() as f64) * cond,
        Spec::Bernoulli { .. } | Spec::BernoulliF { .. } => EPS * 16.0 * want.f(),
        Spec::Beta { .. } => EPS * (64.0 + 16.0 * cond) + 1e-15,
        Spec::Pert { .. } => EPS * (64.0 + 16.0 * cond) + EPS * 32.0 * c.spec.kappa(),
        _ => EPS * (16.0 + 8.0 * cond),
    };
    if let (Spec::Binomial { n, .. }, true) | (Spec::BinomialF { n, .. }, true) = (&c.spec, distance(h, want) > tol) {
        if *n >= 11 && (*n == 11 || stirlerr_count(*n, 11) != 0) {
            let w = perturbed_entropy(&c.spec);
            if distance(h, w) <= 2.0 * tol + 1e-12 {
                ctx.finding(STIRLERR, format!("entropy {:e}, expected {:e}", h, want.f()));
                return Ok(());
            }
        }
    }
    close(ctx, "entropy", &c.spec, h, want, tol)?;
    if c.spec.is_discrete() {
        let (_, b) = c.spec.support();
        ensure(h >= -tol && h <= (b + 1.0).ln() + tol, || format!("range: entropy {:e} of {} values", h, b + 1.0))?;
    }
    Ok(())
}

fn entropy_spec() -> S<Spec> {
    prop_oneof![
        3 => bernoulli_spec(),
        4 => categorical_spec(),
        3 => (0u64..300, prob(), any::<bool>()).prop_map(|(n, p, f)| if f { Spec::BinomialF { n, q: p } } else { Spec::Binomial { n, p } }),
        1 => binomial_spec(4.3),
    ]
    .boxed()
}

/// Lognormal laws whose mean is not a number any more.
fn far() -> S<Spec> {
    (prop_oneof![-1e4..1e4f64, -1e6..1e6f64], pow10(-8.0, 2.0)).prop_map(|(mu, sigma)| Spec::Lognormal { mu, sigma }).boxed()
}

pub fn p12() -> Property {
    Property {
        id: "P12",
        rule: "random distribution of every family (also wild: parameters many orders of magnitude apart; and vast: shapes of 1e±30); Shannon or differential entropy against a double-double closed form (a full sum for binomial laws, n to 1e6), and of lognormal laws with mu to ±1e6; non-trivial when the entropy is not zero",
        families: vec![
            Family { name: "continuous", strategy: || bare(continuous()), oracle: entropy, quick: 600_000, thorough: 30_000_000, chunk: 1000 },
            Family { name: "wild", strategy: || bare(wild()), oracle: entropy, quick: 300_000, thorough: 15_000_000, chunk: 1000 },
            Family { name: "discrete", strategy: || bare(entropy_spec()), oracle: entropy, quick: 120_000, thorough: 6_000_000, chunk: 100 },
            Family { name: "large", strategy: || bare((9_990u64..200_000, prob(), any::<bool>()).prop_map(|(n, p, f)| if f { Spec::BinomialF { n, q: p } } else { Spec::Binomial { n, p } }).boxed()), oracle: entropy, quick: 3_600, thorough: 180_000, chunk: 10 },
            Family { name: "vast", strategy: || bare(vast()), oracle: entropy, quick: 150000, thorough: 7500000, chunk: 1000 },
            Family { name: "long", strategy: || bare(long()), oracle: entropy, quick: 12_000, thorough: 600_000, chunk: 50 },
            Family { name: "far", strategy: || bare(far()), oracle: entropy, quick: 100_000, thorough: 5_000_000, chunk: 1000 },
        ],
    }
}
