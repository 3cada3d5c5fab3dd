//! Quantiles, medians, modes.

use crate::dd::*;
use crate::gen::*;
use crate::oracle::*;
use crate::p_cdf::STIRLERR;
use crate::refm::{self, Tails};
use crate::runner::{Ctx, Family, Property};
use crate::spec::Spec;
use proptest::prelude::*;

/// A uniform number in [0, 1) from a generated word.
pub fn unit(w: u64) -> f64 {
    (w >> 11) as f64 / (1u64 << 53) as f64
}

// --- P06: continuous quantiles --------------------------------------------

/// How far (in x) rounding may carry a correctly computed quantile `x`, and
/// how far (in probability) the method behind it may be off at `u`.
pub fn quantile_slack(spec: &Spec, u: f64, x: f64) -> (f64, f64) {
    let big = |m: f64| 8.0 * EPS * (m.abs() + (x - m).abs()) + 1e-320;
    match spec {
        // From one end or the other.
        Spec::Uniform { a, .. } => (16.0 * EPS * (x.abs() + (x - a).abs()) + 1e-320, 0.0),
        Spec::Triangular { a, b, c } => {
            let m = if x - c <= 16.0 * EPS * (x - a) || u < 0.5 { x - a } else { b.abs() };
            (16.0 * EPS * (x.abs() + m.abs()) + 1e-320, if u < 1e-290 { 1e-290 } else { 0.0 })
        }
        Spec::Exponential { .. } => (8.0 * EPS * x + 1e-320, if u < 1e-300 { 1e-320 } else { 0.0 }),
        Spec::Laplace { mu, .. } => (big(*mu), 0.0),
        Spec::Logistic { mu, s } => (big(*mu) + 4.0 * EPS * s, 0.0),
        Spec::Cauchy { x0, .. } => (big(*x0), if u < 1e-300 { 1e-320 } else { 0.0 }),
        Spec::Gaussian { mu, .. } => (big(*mu), 0.0),
        Spec::Lognormal { mu, sigma } => {
            let l = if x > 0.0 { x.ln().abs() } else { 745.0 };
            ((8.0 * EPS * (1.0 + mu.abs() + (l - mu.abs()).abs() + 4.0 * sigma)) * x + 1e-320, 0.0)
        }
        Spec::Beta { a, b, .. } | Spec::Pert { a, c: b, .. } => {
            // As good as the CDF that is inverted.
            let t = refm::cdf(spec, x);
            // The unit interval has subnormal numbers too.
            (8.0 * EPS * (x.abs() + (x - a).abs()) + 1e-300 * (b - a).max(1.0), 2.0 * cdf_tol(spec, x, &t) + 1e-300)
        }
        _ => unreachable!(),
    }
}

fn around(spec: &Spec, x: f64, d: f64) -> (Tails, Tails) {
    (refm::cdf(spec, x - d), refm::cdf(spec, x + d))
}

/// Is `u` between F(x - d) and F(x + d), give or take `s`? Returns by how
/// much it is not.
pub fn outside(spec: &Spec, u: f64, x: f64, d: f64) -> f64 {
    let (l, h) = around(spec, x, d);
    if u > 0.5 {
        let v = 1.0 - u;
        (dd(v) - l.hi).f().max((h.hi - v).f())
    } else {
        (l.lo - u).f().max((dd(u) - h.lo).f())
    }
}

fn within(spec: &Spec, x: f64, what: &str) -> Result<(), String> {
    let (a, b) = spec.support();
    let m = if a.is_finite() && b.is_finite() { 4.0 * EPS * a.abs().max(b.abs()) } else { 0.0 };
    ensure(x >= a - m && x <= b + m, || format!("support: {} = {:e} outside [{:e}, {:e}]", what, x, a, b))
}

fn quantiles(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let (a, b) = c.spec.support();
    let mut us: Vec<f64> = c.xs.iter().copied().filter(|u| (0.0..=1.0).contains(u)).collect();
    // Arguments that are values of the CDF close the loop.
    for &w in &c.ns {
        let x = point(&c.spec, (w % POINT_KINDS as u64) as u32, unit(w));
        if x.is_finite() {
            let u = refm::cdf(&c.spec, x).lo.f();
            if u > 1e-300 && u < 1.0 {
                us.push(u);
            }
        }
    }
    us.sort_by(|p, q| p.partial_cmp(q).unwrap());
    let mut prev: Option<(f64, f64)> = None;
    for &u in &us {
        let x = d.inverse(u).unwrap();
        ensure(!x.is_nan(), || format!("nan: inverse({:e}) is NaN", u))?;
        within(&c.spec, x, &format!("inverse({:e})", u))?;
        if let Some((v, y)) = prev {
            let slack = match c.spec {
                Spec::Beta { .. } | Spec::Pert { .. } => 2.0 * quantile_slack(&c.spec, u, x).0,
                _ if x.is_finite() => quantile_slack(&c.spec, u, x).0,
                _ => 0.0,
            };
            ensure(y <= x + slack || v == u, || {
                format!("monotone: inverse({:e}) = {:e} but inverse({:e}) = {:e}", v, y, u, x)
            })?;
        }
        prev = Some((u, x));
        let ends = if u == 0.0 { Some(a) } else if u == 1.0 { Some(b) } else { None };
        if let Some(e) = ends {
            ctx.label("end");
            let ok = if e.is_finite() { (x - e).abs() <= 4.0 * EPS * a.abs().max(if b.is_finite() { b.abs() } else { 0.0 }) } else { x == e };
            ensure(ok, || format!("end: inverse({:e}) = {:e}, expected {:e}", u, x, e))?;
            continue;
        }
        if x.is_infinite() {
            // Only where the quantile is as good as too large a number.
            let t = refm::cdf(&c.spec, x.signum() * 1e290);
            let (s, v) = if x > 0.0 { (t.hi.f(), 1.0 - u) } else { (t.lo.f(), u) };
            ensure(v <= s * (1.0 + 16.0 * EPS) + 1e-320 && a.is_infinite() | (x > 0.0) && b.is_infinite() | (x < 0.0), || format!("infinite: inverse({:e}) = {:e}", u, x))?;
            continue;
        }
        let (dx, s) = quantile_slack(&c.spec, u, x);
        let off = outside(&c.spec, u, x, dx);
        if s > 0.0 {
            ctx.ratio(&format!("quantile/{}", c.spec.name()), off / s);
        }
        ensure(off <= s, || {
            let e = refm::quantile_edge(&c.spec, u);
            format!("quantile: inverse({:e}) = {:e}, where the CDF misses it by {:.3e} (quantile near {:e})", u, x, off, e)
        })?;
        if u > 1e-12 && u < 1.0 - 1e-12 {
            ctx.nontrivial = true;
        }
    }
    Ok(())
}

fn invertible() -> S<Spec> {
    proptest::strategy::Union::new(vec![
        beta_spec(),
        beta_spec(),
        beta_spec(),
        pert_spec(),
        triangular_spec(),
        triangular_spec(),
        uniform_spec(),
        cauchy_spec(),
        gaussian_spec(),
        gaussian_spec(),
        laplace_spec(),
        logistic_spec(),
        exponential_spec(),
        lognormal_spec(),
    ])
    .boxed()
}

fn quantile_case(spec: S<Spec>, n: usize, m: usize) -> S<Case> {
    (spec, prop::collection::vec(quantile_arg(), n), prop::collection::vec(any::<u64>(), m))
        .prop_map(|(spec, xs, ns)| Case { spec, xs, ns })
        .boxed()
}

fn wild_invertible() -> S<Spec> {
    prop_oneof![15 => wild_plain(), 1 => brink()].prop_filter("invertible", |s| !matches!(s, Spec::Gamma { .. })).boxed()
}

/// Beta laws with very small, very large, or very different shapes.
fn beta_shapes() -> S<Spec> {
    shapes().prop_filter("invertible", |s| !matches!(s, Spec::Gamma { .. })).boxed()
}

pub fn p06() -> Property {
    Property {
        id: "P06",
        rule: "random invertible continuous distribution (also wild: parameters many orders of magnitude apart; and beta shapes of 1e-12 to 1e5), four probabilities (ends, tails down to 5e-324 and up to 1 - 2^-53, and values of the CDF); the reference CDF must bracket each probability at the returned quantile; non-trivial when some probability is within [1e-12, 1 - 1e-12]",
        families: vec![
            Family { name: "quantiles", strategy: || quantile_case(invertible(), 3, 1), oracle: quantiles, quick: 240_000, thorough: 12_000_000, chunk: 500 },
            Family { name: "wild", strategy: || quantile_case(wild_invertible(), 3, 1), oracle: quantiles, quick: 80_000, thorough: 4_000_000, chunk: 500 },
            Family { name: "shapes", strategy: || quantile_case(beta_shapes(), 2, 1), oracle: quantiles, quick: 30_000, thorough: 1_500_000, chunk: 250 },
        ],
    }
}

// --- P07: discrete quantiles -----------------------------------------------

/// Finding `binomial-inverse-newton`: where Newton's method is used, the
/// result may be one less than the quantile.
pub const NEWTON: &str = "binomial-inverse-newton";

pub fn newton_regime(spec: &Spec) -> bool {
    match spec {
        Spec::Binomial { .. } | Spec::BinomialF { .. } => {
            let (p, q) = refm::pq(spec);
            let n = refm::trials(spec) as f64;
            let (np, nq) = (n * p.f(), n * q.f());
            let v = np * q.f();
            n >= 1000.0 && np > 4.999999 && nq > 4.999999 && v < 80.000001
        }
        _ => false,
    }
}

/// The uncertainty of the CDF of a discrete law at `k` as a computation of it
/// may see it.
pub fn step_tol(spec: &Spec, u: f64, k: f64, t: &Tails) -> f64 {
    match spec {
        Spec::Categorical { p } => {
            let mut s = 0.0;
            let mut exact = true;
            for &v in p {
                let e = dd(s) + v;
                exact &= e.lo == 0.0;
                s = e.hi;
            }
            if exact && s == 1.0 {
                0.0
            } else {
                cdf_tol(spec, k, t)
            }
        }
        Spec::Bernoulli { p } => if (ONE - dd(*p)).lo == 0.0 { 0.0 } else { EPS },
        Spec::BernoulliF { .. } => 0.0,
        _ => {
            let n = refm::trials(spec) as f64;
            let (lo, hi) = (t.lo.f(), t.hi.f());
            // Repeated products of up to n factors from either end; from the
            // top, 1 - u is formed first.
            let m = n.min(2000.0);
            let (p, q) = refm::pq(spec);
            // Whichever probability was not given is rounded before it is
            // raised to the n-th power.
            let round = n * (p.lo.abs() / p.hi + q.lo.abs() / q.hi);
            let half = refm::cdf(spec, (n / 2.0).floor()).lo.f();
            let (from_bottom, from_top) = (lo.max(u), hi.max(EPS));
            let sum = if (u - half).abs() <= 1e-7 * half {
                from_bottom.max(from_top)
            } else if u < half {
                from_bottom
            } else {
                from_top
            };
            cdf_tol(spec, k, t) + (EPS * (16.0 + 4.0 * m) + 2.0 * round) * sum + EPS * u
        }
    }
}

/// By how much (relative to the tolerance) `r` fails to be the least value
/// whose cumulative probability is at least `u`: (too low, too high).
pub fn misplaced(spec: &Spec, u: f64, r: f64) -> (f64, f64) {
    let at = |k: f64, below: bool| -> f64 {
        let t = refm::cdf(spec, k);
        let tol = step_tol(spec, u, k, &t);
        // F(k) - u with the better conditioned tail.
        let gap = if u > 0.5 { (dd(1.0 - u) - t.hi).f() } else { (t.lo - u).f() };
        let bad = if below { gap } else { -gap };
        if below {
            // F(r - 1) must be less than u: equality is wrong as well.
            if bad < 0.0 { 0.0 } else if tol > 0.0 { bad / tol } else { f64::INFINITY }
        } else if bad <= 0.0 {
            0.0
        } else if tol > 0.0 {
            bad / tol
        } else {
            f64::INFINITY
        }
    };
    let low = at(r, false);
    let high = if r >= 1.0 { at(r - 1.0, true) } else { 0.0 };
    (low, high)
}

fn steps(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let (_, b) = c.spec.support();
    let mut us: Vec<f64> = c.xs.iter().copied().filter(|u| (0.0..=1.0).contains(u)).collect();
    for &w in &c.ns {
        let k = point(&c.spec, (w % POINT_KINDS as u64) as u32, unit(w)).floor().max(0.0).min(b);
        let u = d.cdf(k);
        if u > 0.0 && u < 1.0 {
            us.push(u);
            match (w >> 5) % 5 {
                0 => us.push(next_up(u)),
                1 => us.push(next_down(u)),
                2 => us.push(u * (1.0 - 1e-9)),
                3 => us.push((u * (1.0 + 1e-9)).min(1.0)),
                _ => us.push(u - 0.5 * d.mass(k as u64).unwrap().min(u)),
            }
        }
    }
    us.sort_by(|p, q| p.partial_cmp(q).unwrap());
    let mut prev: Option<(f64, f64)> = None;
    for &u in &us {
        let r = d.inverse(u).unwrap();
        ensure(r >= 0.0 && r <= b, || format!("support: inverse({:e}) = {} outside the support", u, r))?;
        let newton = newton_regime(&c.spec);
        if let Some((v, y)) = prev {
            let tie = newton || {
                // Equal up to rounding of the CDF.
                let t = refm::cdf(&c.spec, r);
                u - v <= 2.0 * step_tol(&c.spec, u, r, &t)
            };
            ensure(y <= r || tie && (!newton || y <= r + 1.0), || {
                format!("monotone: inverse({:e}) = {} but inverse({:e}) = {}", v, y, u, r)
            })?;
        }
        prev = Some((u, r));
        if let Spec::Categorical { p } = &c.spec {
            ensure(p[r as usize] > 0.0, || format!("impossible: inverse({:e}) = {}, a value of no probability", u, r))?;
        }
        if u == 0.0 {
            ctx.label("end");
            let t = if r >= 1.0 { refm::cdf(&c.spec, r - 1.0).lo.f() } else { 0.0 };
            ensure(t == 0.0, || format!("end: inverse(0) = {}", r))?;
            continue;
        }
        if u == 1.0 {
            ctx.label("end");
            let want = match &c.spec {
                // Certain as far as floating point can tell.
                Spec::Categorical { p } if p[r as usize + 1..].iter().sum::<f64>() <= EPS * p.len() as f64 => r,
                Spec::Categorical { p } => p.iter().rposition(|&v| v > 0.0).unwrap() as f64,
                Spec::Bernoulli { p } if *p <= EPS => r,
                _ => b,
            };
            ensure(r == want, || format!("end: inverse(1) = {}, expected {}", r, want))?;
            continue;
        }
        let (low, high) = misplaced(&c.spec, u, r);
        if !newton {
            ctx.ratio(&format!("low/{}", c.spec.name()), low);
        }
        ctx.ratio(&format!("high/{}", c.spec.name()), high);
        if low > 1.0 && newton {
            // One less than the quantile, by at most 0.56 of its own mass.
            let t = refm::cdf(&c.spec, r);
            let gap = if u > 0.5 { (t.hi - (1.0 - u)).f() } else { (dd(u) - t.lo).f() };
            let (p, q) = refm::pq(&c.spec);
            let m = refm::ln_binomial_mass(refm::trials(&c.spec), p, q, r as u64).f().exp();
            if gap <= 0.56 * m + step_tol(&c.spec, u, r, &t) && misplaced(&c.spec, u, r + 1.0).0 <= 1.0 {
                ctx.finding(NEWTON, format!("inverse({:e}) = {}, one less than the quantile", u, r));
                continue;
            }
        }
        ensure(low <= 1.0, || {
            format!("low: inverse({:e}) = {} has cumulative probability {:e}", u, r, refm::cdf(&c.spec, r).lo.f())
        })?;
        ensure(high <= 1.0, || {
            format!("high: inverse({:e}) = {}, but {} already has cumulative probability {:e}", u, r, r - 1.0, refm::cdf(&c.spec, r - 1.0).lo.f())
        })?;
        ctx.nontrivial |= u > 1e-12 && u < 1.0 - 1e-12 && b > 0.0;
    }
    Ok(())
}

pub fn p07() -> Property {
    Property {
        id: "P07",
        rule: "random Bernoulli, binomial (n to 1e9) or categorical distribution, three probabilities of which one sits on or next to a step of the CDF; the result must be the least value whose cumulative probability (reference) is at least the argument; non-trivial when some probability is within [1e-12, 1 - 1e-12]",
        families: vec![
            Family { name: "steps", strategy: || quantile_case(discrete(), 2, 1), oracle: steps, quick: 60_000, thorough: 3_000_000, chunk: 250 },
            Family { name: "large", strategy: || quantile_case(binomial_spec(9.0), 2, 1), oracle: steps, quick: 40_000, thorough: 2_000_000, chunk: 250 },
            Family { name: "rare", strategy: || quantile_case(rare(), 2, 1), oracle: steps, quick: 40_000, thorough: 2_000_000, chunk: 250 },
            Family { name: "long", strategy: || quantile_case(long(), 2, 1), oracle: steps, quick: 6_000, thorough: 300_000, chunk: 50 },
        ],
    }
}

// --- P08: medians ----------------------------------------------------------

/// Finding `categorical-median-half`: half-way medians are one too small.
pub const HALF_MEDIAN: &str = "categorical-median-half";

fn median(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let m = match d.median() {
        Some(m) => m,
        None => return Ok(()),
    };
    ensure(!m.is_nan(), || "nan: the median is NaN".to_string())?;
    within(&c.spec, m, "median")?;
    ctx.nontrivial = true;
    if c.spec.is_discrete() {
        // At least half of the probability on either side, inclusive.
        let below = refm::cdf(&c.spec, m.floor());
        let above = if m >= 1.0 || m.ceil() >= 1.0 { refm::cdf(&c.spec, m.ceil() - 1.0).hi } else { ONE };
        let below_tol = if m.ceil() >= 1.0 {
            step_tol(&c.spec, 0.5, m.ceil() - 1.0, &refm::cdf(&c.spec, m.ceil() - 1.0))
        } else {
            0.0
        };
        let tol = step_tol(&c.spec, 0.5, m.floor(), &below).max(below_tol) + match &c.spec {
            // A sum that rounds to exactly one half.
            Spec::Categorical { .. } | Spec::Bernoulli { .. } => 0.0,
            _ => 4.0 * EPS,
        };
        let low = (HALF - below.lo).f();
        let high = (HALF - above).f();
        ctx.ratio(&format!("median/{}", c.spec.name()), if tol > 0.0 { (low.max(high) / tol).min(2.0) } else { 0.0 });
        if low > tol {
            if let Spec::Categorical { .. } = c.spec {
                let i = (m + 0.5) as u64;
                if m == i as f64 - 0.5 && i >= 1 && d.cdf(i as f64) == 0.5 {
                    ctx.finding(HALF_MEDIAN, format!("the median is {} while F({}) = 1/2", m, i));
                    return Ok(());
                }
            }
        }
        ensure(low <= tol, || format!("low: P(X <= {}) = {:e} is less than one half", m, below.lo.f()))?;
        ensure(high <= tol, || format!("high: P(X >= {}) = {:e} is less than one half", m, above.f()))?;
        return Ok(());
    }
    let (dx, mut s) = quantile_slack(&c.spec, 0.5, m);
    if let Spec::Beta { alpha, beta, .. } = &c.spec {
        if *alpha > 1.0 && *beta > 1.0 && alpha != beta {
            // The closed-form approximation (alpha - 1/3)/(alpha + beta - 2/3).
            let least = alpha.min(*beta);
            s += 0.0155 / (least * least.sqrt());
            ctx.label("approximation");
        }
    }
    let off = outside(&c.spec, 0.5, m, dx);
    if s > 0.0 {
        ctx.ratio(&format!("median/{}", c.spec.name()), off / s);
    }
    ensure(off <= s, || {
        format!("median: {:e} has cumulative probability {:.9}, not one half", m, refm::cdf(&c.spec, m).lo.f())
    })
}

pub fn p08() -> Property {
    Property {
        id: "P08",
        rule: "random distribution of every family with a median (also wild: parameters many orders of magnitude apart; and beta shapes of 1e-12 to 1e5); the reference CDF must put one half at it (at least one half on either side when discrete); every case is non-trivial",
        families: vec![
            Family { name: "discrete", strategy: || bare(prop_oneof![3 => discrete(), 1 => binomial_spec(9.0), 1 => categorical_spec()].boxed()), oracle: median, quick: 360_000, thorough: 18_000_000, chunk: 250 },
            Family { name: "rare", strategy: || bare(rare()), oracle: median, quick: 120_000, thorough: 6_000_000, chunk: 250 },
            Family { name: "long", strategy: || bare(long()), oracle: median, quick: 8_000, thorough: 400_000, chunk: 50 },
            Family { name: "continuous", strategy: || bare(invertible()), oracle: median, quick: 360_000, thorough: 18_000_000, chunk: 250 },
            Family { name: "wild", strategy: || bare(wild_invertible()), oracle: median, quick: 120_000, thorough: 6_000_000, chunk: 250 },
            Family { name: "shapes", strategy: || bare(beta_shapes()), oracle: median, quick: 60_000, thorough: 3_000_000, chunk: 250 },
        ],
    }
}

// --- P09: modes ------------------------------------------------------------

/// The textbook modes, with an allowance for rounding in each.
pub fn reference_modes(spec: &Spec) -> Option<Vec<(DD, f64)>> {
    Some(match spec {
        Spec::Beta { alpha, beta, a, b } => {
            let (l, r) = ((dd(*a), 0.0), (dd(*b), 0.0));
            match (*alpha, *beta) {
                (p, q) if p == 1.0 && q == 1.0 => vec![],
                (p, q) if p < 1.0 && q < 1.0 => vec![l, r],
                (p, q) if p <= 1.0 && q >= 1.0 => vec![l],
                (p, q) if p >= 1.0 && q <= 1.0 => vec![r],
                (p, q) => {
                    let s = dd(p) + q - 2.0;
                    let w = dd(*b) - *a;
                    let x = *a + w * (dd(p) - 1.0) / s;
                    let rel = EPS * (8.0 + 4.0 * (p + q) / s.f());
                    vec![(x, w.f() * ((dd(p) - 1.0) / s).f() * rel + 4.0 * EPS * a.abs().max(b.abs()))]
                }
            }
        }
        Spec::Cauchy { x0: m, .. } | Spec::Gaussian { mu: m, .. } | Spec::Laplace { mu: m, .. } | Spec::Logistic { mu: m, .. } => {
            vec![(dd(*m), 4.0 * EPS * m.abs())]
        }
        Spec::Exponential { .. } => vec![(ZERO, 0.0)],
        Spec::Gamma { k, theta } => {
            if *k < 1.0 {
                // Unbounded at the origin: no mode or the origin.
                return None;
            }
            let x = (dd(*k) - 1.0) * *theta;
            vec![(x, 8.0 * EPS * x.f())]
        }
        Spec::Lognormal { mu, sigma } => {
            let e = dd(*mu) - dd(*sigma).sqr();
            let x = e.exp();
            vec![(x, x.f() * EPS * (8.0 + 4.0 * (mu.abs() + sigma * sigma)))]
        }
        Spec::Pert { b: m, .. } | Spec::Triangular { c: m, .. } => vec![(dd(*m), 4.0 * EPS * m.abs())],
        _ => return None,
    })
}

/// Numbers of trials beyond 2^32: one mode, or two adjacent ones, within the
/// support and next to (n + 1) p.
fn modes_huge(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    use probability::distribution::Modes;
    let (got, n, p) = match (&c.spec, c.spec.build()) {
        (Spec::Binomial { n, p }, crate::spec::Dist::Binomial(d)) => (d.modes(), *n, dd(*p)),
        (Spec::BinomialF { n, q }, crate::spec::Dist::Binomial(d)) => (d.modes(), *n, ONE - *q),
        _ => return Ok(()),
    };
    ctx.nontrivial = true;
    ensure(got.len() == 1 || got.len() == 2 && got[0] + 1 == got[1], || format!("modes: {:?}", got))?;
    ensure(got.iter().all(|&m| m as u64 <= n), || format!("support: modes {:?} of {} trials", got, n))?;
    // n + 1 may need more than 53 bits.
    let (high, low) = (n >> 32, (n & 0xffff_ffff) + 1);
    let r = (dd(high as f64) * 4294967296.0 + low as f64) * p;
    let tol = 1.0 + 8.0 * EPS * r.f();
    for &m in &got {
        let m = dd((m as u64 >> 32) as f64) * 4294967296.0 + (m as u64 & 0xffff_ffff) as f64;
        ensure((m - r).f().abs() <= tol + 1e-9, || format!("modes: {:?}, expected about {:e} (allowed {:.1e})", got, r.f(), tol))?;
    }
    Ok(())
}

fn modes(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let got = match d.modes() {
        Some(m) => m,
        None => return Ok(()),
    };
    let show = |m: &Vec<f64>| format!("{:?}", m);
    for &m in &got {
        ensure(!m.is_nan(), || "nan: a mode is NaN".to_string())?;
        within(&c.spec, m, "a mode")?;
    }
    for w in got.windows(2) {
        ensure(w[0] < w[1], || format!("order: modes {} repeat or descend", show(&got)))?;
    }
    ctx.nontrivial = !got.is_empty();
    match &c.spec {
        Spec::Bernoulli { .. } | Spec::BernoulliF { .. } => {
            let (p, q) = refm::pq(&c.spec);
            let want = if p < q { vec![0.0] } else if p > q { vec![1.0] } else { vec![0.0, 1.0] };
            ensure(got == want, || format!("modes: {}, expected {}", show(&got), show(&want)))
        }
        Spec::Categorical { p } => {
            let top = p.iter().fold(0.0f64, |s, &v| s.max(v));
            let want: Vec<f64> = (0..p.len()).filter(|&i| p[i] == top).map(|i| i as f64).collect();
            if want.len() > 1 {
                ctx.label("tie");
            }
            ensure(got == want, || format!("modes: {}, expected {}", show(&got), show(&want)))
        }
        Spec::Binomial { .. } | Spec::BinomialF { .. } => {
            let (p, _) = refm::pq(&c.spec);
            let n = refm::trials(&c.spec) as f64;
            let r = p * (n + 1.0);
            let near = r.hi.round();
            let f = (r - near).f();
            let exact = f == 0.0 && near >= 1.0 && near <= n;
            let set = |v: Vec<f64>| -> Vec<f64> { v.into_iter().filter(|&m| m >= 0.0 && m <= n).collect() };
            let one = set(vec![if f >= 0.0 { near } else { near - 1.0 }]);
            let two = set(vec![near - 1.0, near]);
            if exact {
                ctx.label("tie");
                return ensure(got == two, || format!("modes: {}, but {} tie", show(&got), show(&two)));
            }
            if f.abs() <= 8.0 * EPS * (r.f() + n * EPS) {
                // A tie up to rounding of the parameters.
                ctx.label("near tie");
                return ensure(!got.is_empty() && got.iter().all(|m| two.contains(m)), || {
                    format!("modes: {}, expected {} or one of them", show(&got), show(&two))
                });
            }
            ensure(got == one, || format!("modes: {}, expected {}", show(&got), show(&one)))
        }
        spec => {
            match reference_modes(spec) {
                Some(want) => {
                    ensure(got.len() == want.len(), || {
                        format!("modes: {}, expected {:?}", show(&got), want.iter().map(|w| w.0.f()).collect::<Vec<_>>())
                    })?;
                    for (&g, &(x, tol)) in got.iter().zip(&want) {
                        ensure(distance(g, x) <= tol, || format!("modes: {:e}, expected {:e} (allowed {:.1e})", g, x.f(), tol))?;
                    }
                }
                None => {
                    // A gamma law with k < 1.
                    ensure(got.is_empty() || got == [0.0], || format!("modes: {}", show(&got)))?;
                }
            }
            // Nothing generated is denser than a mode.
            let blurred = matches!(spec, Spec::Beta { alpha, beta, .. } if alpha.max(*beta) > 1e6) || matches!(spec, Spec::Gamma { k, .. } if *k > 1e6);
            // (At an end of the support the density may be anything.)
            let inner = |m: f64| {
                let (a, b) = spec.support();
                m - a > 1e-9 * spec.aim().1 && !(b - m < 1e-9 * spec.aim().1)
            };
            if let Some(&m) = got.first().filter(|&&m| inner(m) && !blurred) {
                // The mode itself is rounded to the grid of doubles.
                let near = [m, next_up(m), next_up(next_up(m)), next_down(m), next_down(next_down(m))];
                let (a, b) = spec.support();
                let f = near.iter().filter(|&&m| m > a && m < b).map(|&m| d.density(m).unwrap()).fold(0.0, f64::max);
                for &x in &c.xs {
                    if !x.is_finite() {
                        continue;
                    }
                    let g = d.density(x).unwrap();
                    let (a, b) = spec.support();
                    let inner = x > a && x < b && m > a && m < b;
                    let rel = if inner {
                        let k = refm::ln_density(spec, x).1 + refm::ln_density(spec, m).1;
                        2.0 * density_rel(spec, x, k.min(1e12)).min(1e-6) + 2.0 * density_rel(spec, m, k.min(1e12)).min(1e-6)
                    } else {
                        1e-9
                    };
                    ensure(g <= f * (1.0 + rel) || g.is_infinite() && got.contains(&x), || {
                        format!("denser: density({:e}) = {:e} exceeds {:e} at the mode {:e}", x, g, f, m)
                    })?;
                }
            }
            Ok(())
        }
    }
}

pub fn p09() -> Property {
    let _ = STIRLERR;
    Property {
        id: "P09",
        rule: "random distribution of every family with modes (also wild: parameters many orders of magnitude apart; vast: shapes of 1e±30; and blunt: shapes next to one); the reported set against the textbook set (exact for discrete laws, ties included) and no generated point denser than a mode; non-trivial when the set is not empty",
        families: vec![
            Family { name: "discrete", strategy: || bare(prop_oneof![2 => discrete(), 2 => binomial_spec(9.0), 1 => lattice()].boxed()), oracle: modes, quick: 1_200_000, thorough: 60_000_000, chunk: 1000 },
            Family { name: "huge", strategy: || bare(huge()), oracle: modes_huge, quick: 800_000, thorough: 40_000_000, chunk: 1000 },
            Family { name: "continuous", strategy: || with_points(continuous(), 2), oracle: modes, quick: 800_000, thorough: 40_000_000, chunk: 1000 },
            Family { name: "wild", strategy: || with_points(wild(), 2), oracle: modes, quick: 400_000, thorough: 20_000_000, chunk: 1000 },
            Family { name: "vast", strategy: || with_points(vast(), 2), oracle: modes, quick: 200_000, thorough: 10_000_000, chunk: 1000 },
            Family { name: "blunt", strategy: || with_points(blunt(), 2), oracle: modes, quick: 200_000, thorough: 10_000_000, chunk: 1000 },
            Family { name: "long", strategy: || with_points(long(), 2), oracle: modes, quick: 12_000, thorough: 600_000, chunk: 50 },
        ],
    }
}

/// Beta and gamma laws with shapes next to one, where the kind of the modes
/// changes.
fn blunt() -> S<Spec> {
    let shape = || {
        (-15.5..0.0f64, 0u8..6).prop_map(|(e, kind)| match kind {
            0 => 1.0,
            1 | 2 => 1.0 - 10f64.powf(e) * 0.9,
            _ => 1.0 + 10f64.powf(e),
        })
    };
    prop_oneof![
        6 => (shape(), shape(), interval()).prop_map(|(alpha, beta, (a, b))| Spec::Beta { alpha, beta, a, b }),
        1 => (shape(), pow10(-6.0, 6.0)).prop_map(|(k, theta)| Spec::Gamma { k, theta }),
    ]
    .boxed()
}

/// Binomial laws whose (n + 1) p is an exact integer.
fn lattice() -> S<Spec> {
    (1u32..12, 1u64..200, any::<bool>(), 0u64..4096)
        .prop_map(|(e, m, failure, j)| {
            let d = 1u64 << e;
            let n = m * d - 1;
            let k = 1 + j % (d - 1).max(1);
            let p = if d == 1 { 0.5 } else { k.min(d - 1) as f64 / d as f64 };
            if failure {
                Spec::BinomialF { n, q: p }
            } else {
                Spec::Binomial { n, p }
            }
        })
        .boxed()
}
