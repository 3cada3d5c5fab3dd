//! Construction, inference from samples, equivariance, identities, totality.

use crate::dd::*;
use crate::gen::*;
use crate::oracle::*;
use crate::p_quant::{newton_regime, outside, quantile_slack, reference_modes, unit};
use crate::p_sample::{word, Words};
use crate::refm;
use crate::runner::{quietly, Ctx, Family, Property};
use crate::spec::{Dist, Spec};
use probability::distribution as pd;
use probability::prelude::*;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::Union;

fn bit(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a == b
}

fn exactly(what: &str, got: f64, want: f64) -> Result<(), String> {
    ensure(bit(got, want), || format!("accessor: {} is {:e}, given {:e}", what, got, want))
}

// --- P16: construction -------------------------------------------------------

/// Which parameter vectors the documentation admits.
fn admitted(spec: &Spec) -> bool {
    match spec {
        Spec::Binomial { p, .. } => (0.0..=1.0).contains(p),
        Spec::BinomialF { q, .. } => (0.0..=1.0).contains(q),
        Spec::Bernoulli { p } => *p > 0.0 && *p < 1.0,
        Spec::BernoulliF { q } => *q > 0.0 && *q < 1.0,
        Spec::Beta { alpha, beta, a, b } => *alpha > 0.0 && *beta > 0.0 && a < b,
        Spec::Categorical { p } => p.iter().all(|v| (0.0..=1.0).contains(v)) && (p.iter().fold(0.0, |s, v| s + v) - 1.0).abs() < 1e-12,
        Spec::Cauchy { gamma: s, .. }
        | Spec::Gaussian { sigma: s, .. }
        | Spec::Laplace { b: s, .. }
        | Spec::Logistic { s, .. }
        | Spec::Lognormal { sigma: s, .. }
        | Spec::Exponential { lambda: s } => *s > 0.0,
        Spec::Gamma { k, theta } => *k > 0.0 && *theta > 0.0,
        Spec::Pert { a, b, c } => a < b && b < c,
        Spec::Triangular { a, b, c } => a < b && a <= c && c <= b,
        Spec::Uniform { a, b } => a < b,
    }
}

fn accessors(spec: &Spec, d: &Dist) -> Result<(), String> {
    match (spec, d) {
        (Spec::Bernoulli { p }, Dist::Bernoulli(d)) => {
            exactly("p", d.p(), *p)?;
            ensure((d.q() - (1.0 - p)).abs() <= EPS, || format!("accessor: q is {:e} for p = {:e}", d.q(), p))
        }
        (Spec::BernoulliF { q }, Dist::Bernoulli(d)) => {
            exactly("q", d.q(), *q)?;
            ensure((d.p() - (1.0 - q)).abs() <= EPS, || format!("accessor: p is {:e} for q = {:e}", d.p(), q))
        }
        (Spec::Binomial { n, p }, Dist::Binomial(d)) => {
            ensure(d.n() as u64 == *n, || format!("accessor: n is {}, given {}", d.n(), n))?;
            exactly("p", d.p(), *p)?;
            ensure((d.q() - (1.0 - p)).abs() <= EPS, || format!("accessor: q is {:e} for p = {:e}", d.q(), p))
        }
        (Spec::BinomialF { n, q }, Dist::Binomial(d)) => {
            ensure(d.n() as u64 == *n, || format!("accessor: n is {}, given {}", d.n(), n))?;
            exactly("q", d.q(), *q)?;
            ensure((d.p() - (1.0 - q)).abs() <= EPS, || format!("accessor: p is {:e} for q = {:e}", d.p(), q))
        }
        (Spec::Beta { alpha, beta, a, b }, Dist::Beta(d)) => {
            exactly("alpha", d.alpha(), *alpha)?;
            exactly("beta", d.beta(), *beta)?;
            exactly("a", d.a(), *a)?;
            exactly("b", d.b(), *b)
        }
        (Spec::Categorical { p }, Dist::Categorical(d)) => {
            ensure(d.k() == p.len(), || format!("accessor: k is {}, given {} probabilities", d.k(), p.len()))?;
            ensure(d.p() == &p[..], || format!("accessor: p is {:?}, given {:?}", d.p(), p))
        }
        (Spec::Cauchy { x0, gamma }, Dist::Cauchy(d)) => {
            exactly("x_0", d.x_0(), *x0)?;
            exactly("gamma", d.gamma(), *gamma)
        }
        (Spec::Exponential { lambda }, Dist::Exponential(d)) => exactly("lambda", d.lambda(), *lambda),
        (Spec::Gamma { k, theta }, Dist::Gamma(d)) => {
            exactly("k", d.k(), *k)?;
            exactly("theta", d.theta(), *theta)
        }
        (Spec::Gaussian { mu, sigma }, Dist::Gaussian(d)) => {
            exactly("mu", d.mu(), *mu)?;
            exactly("sigma", d.sigma(), *sigma)
        }
        (Spec::Laplace { mu, b }, Dist::Laplace(d)) => {
            exactly("mu", d.mu(), *mu)?;
            exactly("b", d.b(), *b)
        }
        (Spec::Logistic { mu, s }, Dist::Logistic(d)) => {
            exactly("mu", d.mu(), *mu)?;
            exactly("s", d.s(), *s)
        }
        (Spec::Lognormal { mu, sigma }, Dist::Lognormal(d)) => {
            exactly("mu", d.mu(), *mu)?;
            exactly("sigma", d.sigma(), *sigma)
        }
        (Spec::Pert { a, b, c }, Dist::Pert(d)) => {
            exactly("a", d.a(), *a)?;
            exactly("b", d.b(), *b)?;
            exactly("c", d.c(), *c)?;
            // The shapes have closed forms in the three points.
            let w = dd(*c) - *a;
            let (al, be) = (1.0 + 4.0 * (dd(*b) - *a) / w, 1.0 + 4.0 * (dd(*c) - *b) / w);
            let tol = 32.0 * EPS * spec.kappa();
            ensure(distance(d.alpha(), al) <= tol, || format!("accessor: alpha is {:e}, expected {:e}", d.alpha(), al.f()))?;
            ensure(distance(d.beta(), be) <= tol, || format!("accessor: beta is {:e}, expected {:e}", d.beta(), be.f()))
        }
        (Spec::Triangular { a, b, c }, Dist::Triangular(d)) => {
            exactly("a", d.a(), *a)?;
            exactly("b", d.b(), *b)?;
            exactly("c", d.c(), *c)
        }
        (Spec::Uniform { a, b }, Dist::Uniform(d)) => {
            exactly("a", d.a(), *a)?;
            exactly("b", d.b(), *b)
        }
        _ => Err("accessor: another distribution".to_string()),
    }
}

fn construct(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let want = admitted(&c.spec);
    let built = quietly(|| c.spec.build());
    match (&built, want) {
        (Ok(d), true) => {
            ctx.label("accepted");
            ctx.nontrivial = true;
            accessors(&c.spec, d)?;
            accessors(&c.spec, &d.clone())?;
            // Quantile arguments: the closed unit interval and nothing else.
            // The incomplete beta function takes as many steps as the shapes
            // are apart.
            let slow = matches!(&c.spec, Spec::Beta { alpha, beta, .. } if alpha.min(*beta) < 1e-3 || alpha.max(*beta) > 1e5);
            for &u in &c.xs {
                let inside = (0.0..=1.0).contains(&u);
                if inside && slow {
                    continue;
                }
                let r = quietly(|| d.inverse(u));
                match r {
                    Ok(None) => break,
                    Ok(_) => ensure(inside, || format!("argument: inverse({:e}) is not refused", u))?,
                    Err(m) => ensure(!inside, || format!("argument: inverse({:e}) is refused ({})", u, m))?,
                }
            }
            Ok(())
        }
        (Err(_), false) => {
            ctx.label("refused");
            ctx.nontrivial = true;
            Ok(())
        }
        (Ok(_), false) => Err("domain: parameters outside the documented domain are accepted".to_string()),
        (Err(m), true) => Err(format!("domain: parameters inside the documented domain are refused ({})", m)),
    }
}

/// Parameters on, next to, and beyond the edge of their domain.
fn edgy() -> S<Case> {
    let v = || {
        prop_oneof![
            3 => select(vec![0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 5e-324, -5e-324, 1.0 - EPS / 2.0, 1.0 + EPS, f64::NAN, f64::MIN_POSITIVE]),
            2 => -3.0f64..3.0,
            2 => pow10(-10.0, 3.0),
            1 => pow10(-10.0, 3.0).prop_map(|v| -v),
        ]
        .boxed()
    };
    // Pairs and triples that coincide now and then.
    let trio = (v(), v(), v(), 0u32..8).prop_map(|(a, b, c, how)| match how {
        0 => (a, a, c),
        1 => (a, b, a),
        2 => (a, b, b),
        3 => (a.min(b), a.max(b), c),
        4 => (a, next_up(a), next_down(a)),
        5 => (a.min(b).min(c), a.max(b).max(c), a.max(b).min(c)),
        _ => (a, b, c),
    });
    let probs = prop_oneof![
        3 => categorical_spec(),
        2 => (categorical_spec(), 0usize..8, select(vec![1e-12, -1e-12, 2e-12, -2e-12, 0.5e-12, -0.5e-12, 0.1, -0.1, f64::NAN, 1.0])).prop_map(|(s, i, e)| {
            let mut p = s.params();
            let k = i % p.len();
            p[k] += e;
            Spec::Categorical { p }
        }),
        1 => (categorical_spec(), 0usize..8, 0.01f64..1.5).prop_map(|(s, i, e)| {
            // Compensated: the sum is right and an entry may be negative.
            let mut p = s.params();
            let k = i % p.len();
            p[k] -= e;
            p.push(e);
            Spec::Categorical { p }
        }),
    ];
    let spec = Union::new(vec![
        v().prop_map(|p| Spec::Bernoulli { p }).boxed(),
        v().prop_map(|q| Spec::BernoulliF { q }).boxed(),
        (0u64..30, v()).prop_map(|(n, p)| Spec::Binomial { n, p }).boxed(),
        (0u64..30, v()).prop_map(|(n, q)| Spec::BinomialF { n, q }).boxed(),
        (v(), v(), trio.clone()).prop_map(|(alpha, beta, (a, b, _))| Spec::Beta { alpha, beta, a, b }).boxed(),
        probs.boxed(),
        (v(), v()).prop_map(|(m, s)| Spec::Cauchy { x0: m, gamma: s }).boxed(),
        v().prop_map(|lambda| Spec::Exponential { lambda }).boxed(),
        (v(), v()).prop_map(|(k, theta)| Spec::Gamma { k, theta }).boxed(),
        (v(), v()).prop_map(|(mu, sigma)| Spec::Gaussian { mu, sigma }).boxed(),
        (v(), v()).prop_map(|(mu, b)| Spec::Laplace { mu, b }).boxed(),
        (v(), v()).prop_map(|(mu, s)| Spec::Logistic { mu, s }).boxed(),
        (v(), v()).prop_map(|(mu, sigma)| Spec::Lognormal { mu, sigma }).boxed(),
        trio.clone().prop_map(|(a, c, b)| Spec::Pert { a, b, c }).boxed(),
        trio.clone().prop_map(|(a, b, c)| Spec::Triangular { a, b, c }).boxed(),
        trio.prop_map(|(a, b, _)| Spec::Uniform { a, b }).boxed(),
    ]);
    // A location is not checked: keep it a number.
    let spec = spec.prop_filter("numeric location", |s| match s {
        Spec::Cauchy { x0: m, .. } | Spec::Gaussian { mu: m, .. } | Spec::Laplace { mu: m, .. } | Spec::Logistic { mu: m, .. } | Spec::Lognormal { mu: m, .. } => !m.is_nan(),
        // Far enough apart to be told apart.
        Spec::Pert { .. } | Spec::Uniform { .. } | Spec::Triangular { .. } | Spec::Beta { .. } => !admitted(s) || s.kappa() < 1e6,
        _ => true,
    });
    let arg = prop_oneof![
        select(vec![0.0, 1.0, -0.0, -5e-324, 1.0 + EPS, -1.0, 2.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.5, 1.0 - EPS / 2.0, 5e-324]),
        -0.5f64..1.5,
    ];
    (spec, prop::collection::vec(arg, 2)).prop_map(|(spec, xs)| Case { spec, xs, ns: vec![] }).boxed()
}

/// Certain binomial laws: every value is the same.
fn certain(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let n = c.ns[0] % 1_000_000;
    let one = c.ns[1] & 1 == 1;
    let d = if c.ns[1] & 2 == 0 {
        pd::Binomial::new(n as usize, if one { 1.0 } else { 0.0 })
    } else {
        pd::Binomial::with_failure(n as usize, if one { 0.0 } else { 1.0 })
    };
    let x = if one { n as usize } else { 0 };
    ctx.nontrivial = n > 0;
    let k = if c.ns[2] % 3 == 0 { x } else { (c.ns[2] % (n + 2)) as usize };
    let want = if k == x { 1.0 } else { 0.0 };
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-12 * (1.0 + b.abs());
    ensure(near(d.mass(k), want), || format!("certain: mass({}) = {:e}, expected {}", k, d.mass(k), want))?;
    let want = if k >= x { 1.0 } else { 0.0 };
    ensure(near(d.distribution(k as f64), want), || format!("certain: distribution({}) = {:e}, expected {}", k, d.distribution(k as f64), want))?;
    let u = unit(c.ns[3]);
    if u > 0.0 {
        ensure(d.inverse(u) == x, || format!("certain: inverse({:e}) = {}, expected {}", u, d.inverse(u), x))?;
    }
    ensure(d.mean() == x as f64, || format!("certain: mean {:e}", d.mean()))?;
    ensure(d.variance() == 0.0, || format!("certain: variance {:e}", d.variance()))?;
    ensure(d.modes() == vec![x], || format!("certain: modes {:?}", d.modes()))?;
    ensure(d.median() == x as f64, || format!("certain: median {:e}", d.median()))?;
    if n < 3000 {
        ensure(d.entropy().abs() < 1e-12, || format!("certain: entropy {:e}", d.entropy()))?;
    }
    let mut s = Words::new(vec![c.ns[3] | 1 << 63], 5);
    s.fuel = 1000;
    ensure(d.sample(&mut s) == x, || "certain: a sample differs".to_string())
}

/// Defaults and the two ways to make a Bernoulli or binomial law.
fn defaults(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let x = c.xs[0];
    ctx.nontrivial = true;
    let g: pd::Gaussian = Default::default();
    exactly("default mu", g.mu(), 0.0)?;
    exactly("default sigma", g.sigma(), 1.0)?;
    let h = pd::Gaussian::new(0.0, 1.0);
    exactly("default density", g.density(x), h.density(x))?;
    exactly("default distribution", g.distribution(x), h.distribution(x))?;
    let l: pd::Logistic = Default::default();
    exactly("default mu", l.mu(), 0.0)?;
    exactly("default s", l.s(), 1.0)?;
    exactly("default density", l.density(x), pd::Logistic::new(0.0, 1.0).density(x))?;
    let l: pd::Lognormal = Default::default();
    exactly("default mu", l.mu(), 0.0)?;
    exactly("default sigma", l.sigma(), 1.0)?;
    exactly("default distribution", l.distribution(x), pd::Lognormal::new(0.0, 1.0).distribution(x))?;
    let u: pd::Uniform = Default::default();
    exactly("default a", u.a(), 0.0)?;
    exactly("default b", u.b(), 1.0)?;
    exactly("default distribution", u.distribution(x), pd::Uniform::new(0.0, 1.0).distribution(x))?;
    // With a dyadic probability both constructors know p and q exactly.
    let p = (1 + c.ns[0] % 4095) as f64 / 4096.0;
    let (a, b) = (pd::Bernoulli::new(p), pd::Bernoulli::with_failure(1.0 - p));
    exactly("p either way", a.p(), b.p())?;
    exactly("q either way", a.q(), b.q())?;
    exactly("variance either way", a.variance(), b.variance())?;
    let n = (c.ns[1] % 2000) as usize;
    let (a, b) = (pd::Binomial::new(n, p), pd::Binomial::with_failure(n, 1.0 - p));
    exactly("p either way", a.p(), b.p())?;
    exactly("q either way", a.q(), b.q())?;
    let near = |what: &str, x: f64, y: f64| ensure((x - y).abs() <= 1e-9 * y.abs(), || format!("either way: {} is {:e} and {:e}", what, x, y));
    let k = (c.ns[2] % (n as u64 + 1)) as usize;
    near("mean", a.mean(), b.mean())?;
    near("variance", a.variance(), b.variance())?;
    near("mass", a.mass(k), b.mass(k))?;
    near("distribution", a.distribution(k as f64), b.distribution(k as f64))?;
    ensure(a.modes() == b.modes(), || format!("either way: modes {:?} and {:?}", a.modes(), b.modes()))?;
    near("median", a.median(), b.median())
}

pub fn p16() -> Property {
    Property {
        id: "P16",
        rule: "random parameters on, next to and beyond the edges of every documented domain (signed zeros, subnormals, NaN, coinciding ends, sums off by 1e-12), and quantile arguments likewise: accepted exactly when documented (debug assertions), accessors bit for bit; certain binomial laws; defaults and paired constructors; every case is non-trivial",
        families: vec![
            Family { name: "domain", strategy: edgy, oracle: construct, quick: 1_200_000, thorough: 60_000_000, chunk: 1000 },
            Family { name: "everyday", strategy: || with_quantiles(any_spec(), 1), oracle: construct, quick: 600_000, thorough: 30_000_000, chunk: 1000 },
            Family { name: "certain", strategy: || with_words(Just(Spec::Uniform { a: 0.0, b: 1.0 }).boxed(), 4), oracle: certain, quick: 120_000, thorough: 6_000_000, chunk: 500 },
            Family { name: "defaults", strategy: || with_points(Just(Spec::Gaussian { mu: 0.0, sigma: 1.0 }).boxed(), 1).prop_flat_map(|c| prop::collection::vec(any::<u64>(), 3).prop_map(move |ns| Case { ns, ..c.clone() })).boxed(), oracle: defaults, quick: 120_000, thorough: 6_000_000, chunk: 500 },
        ],
    }
}

// --- P17: a Gaussian from samples ---------------------------------------------

fn inferred(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let xs = &c.xs;
    let n = xs.len() as f64;
    if xs.len() < 2 {
        return Ok(());
    }
    let mean = xs.iter().fold(ZERO, |s, &x| s + x) / n;
    let var = xs.iter().fold(ZERO, |s, &x| s + (dd(x) - mean).sqr()) / (n - 1.0);
    let sigma = var.sqrt();
    let size = xs.iter().fold(0.0f64, |s, x| s.max(x.abs()));
    let total = xs.iter().map(|x| x.abs()).sum::<f64>();
    // Rounding of the sum, and what it and the differences do to the spread.
    let slip = EPS * (n + 2.0) * total / n;
    // Spreads at the level of rounding of the samples are not asked about.
    if !(sigma.f() > 1e-140) || !(size < 1e140) || slip > 0.5 * sigma.f() {
        return Ok(());
    }
    ctx.nontrivial = true;
    let g: pd::Gaussian = xs.iter().copied().collect();
    let tol = |s: f64| EPS * (8.0 + 2.0 * n) * s + slip * slip / s * n + 4.0 * EPS * size;
    ctx.ratio("mean", distance(g.mu(), mean) / slip.max(1e-320));
    ctx.ratio("sigma", distance(g.sigma(), sigma) / tol(sigma.f()));
    ensure(distance(g.mu(), mean) <= slip, || format!("mean: {:e}, expected {:e}", g.mu(), mean.f()))?;
    ensure(distance(g.sigma(), sigma) <= tol(sigma.f()), || format!("deviation: {:e}, expected {:e}", g.sigma(), sigma.f()))?;
    // It is the distribution with these parameters in all respects.
    let h = pd::Gaussian::new(g.mu(), g.sigma());
    let x = xs[0];
    exactly("density", g.density(x), h.density(x))?;
    exactly("distribution", g.distribution(x), h.distribution(x))?;
    exactly("entropy", g.entropy(), h.entropy())?;
    exactly("variance", g.variance(), h.variance())?;
    // Whatever kind of iterator delivers them.
    let lazy: pd::Gaussian = xs.iter().copied().filter(|_| true).collect();
    exactly("mu of a lazy iterator", lazy.mu(), g.mu())?;
    exactly("sigma of a lazy iterator", lazy.sigma(), g.sigma())?;
    let kinds: Vec<(&str, pd::Gaussian)> = vec![
        ("thinned", xs.iter().flat_map(|&x| [x, f64::NAN]).filter(|x| !x.is_nan()).collect()),
        ("open", {
            let mut i = 0;
            std::iter::from_fn(|| {
                i += 1;
                xs.get(i - 1).copied()
            })
            .collect()
        }),
        ("chained", xs[..1].iter().chain(xs[1..].iter()).copied().collect()),
        ("cut", xs.iter().copied().chain([f64::NAN, 1.0]).take_while(|x| !x.is_nan()).collect()),
        ("owned", xs.clone().into_iter().collect()),
        ("skipping", [f64::NAN; 3].into_iter().chain(xs.iter().copied()).skip(3).collect()),
        ("scanned", std::iter::once(f64::NAN).chain(xs.iter().copied()).filter_map(|x| if x.is_nan() { None } else { Some(x) }).collect()),
    ];
    for (what, h) in &kinds {
        exactly(&format!("mu of a {} iterator", what), h.mu(), g.mu())?;
        exactly(&format!("sigma of a {} iterator", what), h.sigma(), g.sigma())?;
    }
    // Order does not matter, and the spread ignores shifts.
    let mut back = xs.clone();
    back.reverse();
    let b: pd::Gaussian = back.into_iter().collect();
    ensure((b.mu() - g.mu()).abs() <= 2.0 * slip, || format!("order: mean {:e} and {:e}", g.mu(), b.mu()))?;
    ensure((b.sigma() - g.sigma()).abs() <= 2.0 * tol(g.sigma()), || format!("order: deviation {:e} and {:e}", g.sigma(), b.sigma()))?;
    Ok(())
}

fn samples() -> S<Case> {
    (
        prop_oneof![3 => 2usize..8, 2 => 2usize..60, 1 => 100usize..3000],
        offset(8.0),
        pow10(-4.0, 4.0),
        0u32..5,
        any::<u64>(),
        -130i32..130,
        any::<bool>(),
    )
        .prop_map(|(n, m, s, how, seed, e, far)| {
            let mut w = Words::new(vec![], seed);
            let mut next = || {
                use probability::source::Source;
                unit(w.read_u64())
            };
            let f = if far { 10f64.powi(e) } else { 1.0 };
            let xs = (0..n)
                .map(|i| {
                    let u = next();
                    f * match how {
                        0 => m + s * u,
                        1 => m + s * (2.0 * u - 1.0) / (1.0001 - u),
                        2 => (m + s * u).round(),
                        3 => {
                            if i == n - 1 {
                                m + s
                            } else {
                                m
                            }
                        }
                        _ => s * (u - 0.5).powi(7),
                    }
                })
                .collect();
            Case { spec: Spec::Gaussian { mu: 0.0, sigma: 1.0 }, xs, ns: vec![] }
        })
        .boxed()
}

pub fn p17() -> Property {
    Property {
        id: "P17",
        rule: "random samples (2 to 3000 values; clusters, outliers, offsets, scales 1e-130 to 1e130); mean and unbiased deviation of the inferred Gaussian against double-double, order, iterator kind; non-trivial when the samples differ by more than rounding",
        families: vec![Family { name: "samples", strategy: samples, oracle: inferred, quick: 360_000, thorough: 18_000_000, chunk: 500 }],
    }
}

// --- P18: equivariance ---------------------------------------------------------

const LOOSE: f64 = 1e-9;

fn map(spec: &Spec, k: f64, m: f64) -> Option<Spec> {
    let f = |x: f64| k * x + m;
    Some(match spec {
        Spec::Beta { alpha, beta, a, b } => Spec::Beta { alpha: *alpha, beta: *beta, a: f(*a), b: f(*b) },
        Spec::Cauchy { x0, gamma } => Spec::Cauchy { x0: f(*x0), gamma: k * gamma },
        Spec::Gaussian { mu, sigma } => Spec::Gaussian { mu: f(*mu), sigma: k * sigma },
        Spec::Laplace { mu, b } => Spec::Laplace { mu: f(*mu), b: k * b },
        Spec::Logistic { mu, s } => Spec::Logistic { mu: f(*mu), s: k * s },
        Spec::Pert { a, b, c } => Spec::Pert { a: f(*a), b: f(*b), c: f(*c) },
        Spec::Triangular { a, b, c } => Spec::Triangular { a: f(*a), b: f(*b), c: f(*c) },
        Spec::Uniform { a, b } => Spec::Uniform { a: f(*a), b: f(*b) },
        Spec::Exponential { lambda } if m == 0.0 => Spec::Exponential { lambda: lambda / k },
        Spec::Gamma { k: shape, theta } if m == 0.0 => Spec::Gamma { k: *shape, theta: k * theta },
        _ => return None,
    })
}

fn mirror(spec: &Spec) -> Option<Spec> {
    Some(match spec {
        Spec::Beta { alpha, beta, a, b } => Spec::Beta { alpha: *beta, beta: *alpha, a: -b, b: -a },
        Spec::Cauchy { x0, gamma } => Spec::Cauchy { x0: -x0, gamma: *gamma },
        Spec::Gaussian { mu, sigma } => Spec::Gaussian { mu: -mu, sigma: *sigma },
        Spec::Laplace { mu, b } => Spec::Laplace { mu: -mu, b: *b },
        Spec::Logistic { mu, s } => Spec::Logistic { mu: -mu, s: *s },
        Spec::Pert { a, b, c } => Spec::Pert { a: -c, b: -b, c: -a },
        Spec::Triangular { a, b, c } => Spec::Triangular { a: -b, b: -a, c: -c },
        Spec::Uniform { a, b } => Spec::Uniform { a: -b, b: -a },
        _ => return None,
    })
}

fn slack(spec: &Spec, x: f64) -> f64 {
    let t = refm::cdf(spec, x);
    cdf_tol(spec, x, &t) + LOOSE * t.lo.f().min(t.hi.f())
}

fn near(what: &str, got: f64, want: f64, tol: f64) -> Result<(), String> {
    let ok = bit(got, want) || (got - want).abs() <= tol;
    ensure(ok, || format!("{}: {:e} where the relation asks for {:e} (allowed {:.1e})", what, got, want, tol))
}

/// x -> k x + m, with parameters and points for which that is exact.
fn affine(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let reach = match c.ns[0] % 8 {
        0 | 4 => 400,
        1 => 960,
        _ => 20,
    };
    let k = 2f64.powi((c.ns[0] / 8 % (2 * reach + 1)) as i32 - reach as i32);
    let mut m = if c.ns[1] % 3 == 0 { 0.0 } else { (c.ns[1] % 2048) as f64 - 1024.0 };
    if matches!(c.spec, Spec::Exponential { .. } | Spec::Gamma { .. }) {
        m = 0.0;
    }
    let m = k * m;
    let Some(s) = map(&c.spec, k, m) else { return Ok(()) };
    let (d, e) = (c.spec.build(), s.build());
    // Cancellation in a shifted bounded law.
    let loose = LOOSE * s.kappa();
    for &x in &c.xs {
        let y = k * x + m;
        let f = d.cdf(x);
        near("cdf", e.cdf(y), f, slack(&c.spec, x) + slack(&s, y) + loose * f.min(1.0 - f))?;
        let (a, b) = c.spec.support();
        if x > a && x < b {
            let f = d.density(x).unwrap();
            // The exponential comes before the division by the scale.
            if f.min(f * c.spec.aim().1).min(f / k) > 1e-300 && f.max(f / k) < 1e300 {
                let cond = refm::ln_density(&c.spec, x).1 + refm::ln_density(&s, y).1;
                near("density", e.density(y).unwrap() * k, f, f * (loose + 2.0 * density_rel(&c.spec, x, cond) + 2.0 * density_rel(&s, y, cond)))?;
            }
        } else if (x < a || x > b) && x.is_finite() {
            near("density outside", e.density(y).unwrap(), d.density(x).unwrap(), 0.0)?;
        }
        ctx.nontrivial |= f > 1e-9 && f < 1.0 - 1e-9;
    }
    // Quantiles.
    let u = (1 + c.ns[2] % 1023) as f64 / 1024.0;
    if let (Some(x), Some(y)) = (d.inverse(u), e.inverse(u)) {
        let want = k * x + m;
        let size = c.spec.aim().1.abs().max(x.abs()) * k + m.abs();
        near("inverse", y, want, loose * size)?;
    }
    let spread = |d: &Dist| d.deviation().unwrap_or(0.0);
    if let (Some(a), Some(b)) = (d.mean(), e.mean()) {
        near("mean", b, k * a + m, loose * (k * (a.abs() + spread(&d)) + m.abs()))?;
        let (a, b) = (d.variance().unwrap(), e.variance().unwrap());
        if k * k * a > 1e-290 && k * k * a < 1e290 {
            near("variance", b, k * k * a, loose * k * k * a)?;
            near("deviation", e.deviation().unwrap(), k * a.sqrt(), loose * k * a.sqrt())?;
        }
        let (a, b) = (d.skewness().unwrap(), e.skewness().unwrap());
        near("skewness", b, a, loose * (1.0 + a.abs()))?;
        let (a, b) = (d.kurtosis().unwrap(), e.kurtosis().unwrap());
        near("kurtosis", b, a, loose * (1.0 + a.abs()))?;
    }
    let (a, b) = (d.entropy(), e.entropy());
    near("entropy", b, a + k.ln(), loose * (1.0 + a.abs() + k.ln().abs()) + EPS * 64.0 * (refm::entropy(&c.spec).1 + refm::entropy(&s).1))?;
    let size = k * c.spec.aim().0.abs().max(c.spec.aim().1) + m.abs();
    if let (Some(a), Some(b)) = (d.median(), e.median()) {
        near("median", b, k * a + m, loose * size)?;
    }
    if let (Some(a), Some(b)) = (d.modes(), e.modes()) {
        ensure(a.len() == b.len(), || format!("modes: {:?} and {:?}", a, b))?;
        for (a, b) in a.iter().zip(&b) {
            near("mode", *b, k * a + m, loose * size)?;
        }
    }
    // The same words make the same sample, moved.
    let words = || Words::new(vec![], c.ns[2]);
    let (mut v, mut w) = (words(), words());
    for _ in 0..4 {
        let (x, y) = (d.sample(&mut v), e.sample(&mut w));
        if v.reads != w.reads {
            // A comparison fell differently by rounding.
            break;
        }
        near("sample", y, k * x + m, loose * (k * x.abs() + k * c.spec.aim().1.abs() + m.abs()))?;
    }
    Ok(())
}

fn reflected(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let Some(s) = mirror(&c.spec) else { return Ok(()) };
    let (d, e) = (c.spec.build(), s.build());
    let loose = LOOSE * s.kappa();
    for &x in &c.xs {
        let f = d.cdf(x);
        near("cdf", e.cdf(-x), 1.0 - f, slack(&c.spec, x) + slack(&s, -x) + loose * f.min(1.0 - f) + 4.0 * EPS)?;
        let (a, b) = c.spec.support();
        if x > a && x < b {
            let g = d.density(x).unwrap();
            if g > 1e-250 && g < 1e250 {
                let cond = refm::ln_density(&c.spec, x).1 + refm::ln_density(&s, -x).1;
                near("density", e.density(-x).unwrap(), g, g * (loose + 2.0 * density_rel(&c.spec, x, cond) + 2.0 * density_rel(&s, -x, cond)))?;
            }
        }
        ctx.nontrivial |= f > 1e-9 && f < 1.0 - 1e-9;
    }
    let u = (1 + c.ns[2] % 1023) as f64 / 1024.0;
    let size = c.spec.aim().1.abs() + c.spec.aim().0.abs();
    if let (Some(x), Some(y)) = (d.inverse(u), e.inverse(1.0 - u)) {
        near("inverse", y, -x, loose * (size + x.abs()))?;
    }
    if let (Some(a), Some(b)) = (d.mean(), e.mean()) {
        near("mean", b, -a, loose * size)?;
        near("variance", e.variance().unwrap(), d.variance().unwrap(), loose * d.variance().unwrap())?;
        let (a, b) = (d.skewness().unwrap(), e.skewness().unwrap());
        near("skewness", b, -a, loose * (1.0 + a.abs()))?;
        let (a, b) = (d.kurtosis().unwrap(), e.kurtosis().unwrap());
        near("kurtosis", b, a, loose * (1.0 + a.abs()))?;
    }
    near("entropy", e.entropy(), d.entropy(), loose * (1.0 + d.entropy().abs()) + 64.0 * EPS * refm::entropy(&c.spec).1)?;
    if let (Some(a), Some(b)) = (d.median(), e.median()) {
        near("median", b, -a, loose * size)?;
    }
    if let (Some(a), Some(mut b)) = (d.modes(), e.modes()) {
        b.reverse();
        ensure(a.len() == b.len(), || format!("modes: {:?} and {:?}", a, b))?;
        // A mode of a beta law between two nearly flat shapes cancels.
        let own = |s: &Spec| reference_modes(s).map_or(0.0, |v| v.iter().fold(0.0f64, |t, w| t.max(w.1)));
        let tol = loose * size + own(&c.spec) + own(&s);
        for (a, b) in a.iter().zip(&b) {
            near("mode", *b, -a, tol)?;
        }
    }
    Ok(())
}

/// n - X for a binomial or Bernoulli law, k - 1 - X for a categorical one.
fn swapped(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let s = match &c.spec {
        Spec::Bernoulli { p } => Spec::BernoulliF { q: *p },
        Spec::BernoulliF { q } => Spec::Bernoulli { p: *q },
        Spec::Binomial { n, p } => Spec::BinomialF { n: *n, q: *p },
        Spec::BinomialF { n, q } => Spec::Binomial { n: *n, p: *q },
        Spec::Categorical { p } => Spec::Categorical { p: p.iter().rev().copied().collect() },
        _ => return Ok(()),
    };
    let (d, e) = (c.spec.build(), s.build());
    let (_, n) = c.spec.support();
    for &x in &c.xs {
        let k = x.floor();
        if !(k >= 0.0 && k <= n) {
            continue;
        }
        let f = d.cdf(k);
        let g = if k < n { e.cdf(n - k - 1.0) } else { e.cdf(-1.0) };
        near("cdf", g, 1.0 - f, slack(&c.spec, k) + slack(&s, n - k - 1.0) + 4.0 * EPS)?;
        let (a, b) = (d.mass(k as u64).unwrap(), e.mass((n - k) as u64).unwrap());
        near("mass", b, a, LOOSE * a * (1.0 + 1e-7 * n) + 1e-300)?;
        ctx.nontrivial |= f > 1e-9 && f < 1.0 - 1e-9;
    }
    let v = d.variance().unwrap();
    near("mean", e.mean().unwrap(), n - d.mean().unwrap(), 1e-12 * n)?;
    near("variance", e.variance().unwrap(), v, LOOSE * v + 1e-14 * n * n * c.spec.is_categorical())?;
    if v > 1e-6 {
        let (a, b) = (d.skewness().unwrap(), e.skewness().unwrap());
        near("skewness", b, -a, 1e-7 * (1.0 + a.abs()))?;
        let (a, b) = (d.kurtosis().unwrap(), e.kurtosis().unwrap());
        near("kurtosis", b, a, 1e-7 * (1.0 + a.abs()))?;
    }
    if n <= 2000.0 {
        let (a, b) = (d.entropy(), e.entropy());
        near("entropy", b, a, LOOSE * (1.0 + a.abs()))?;
    }
    if let (Some(a), Some(mut b)) = (d.modes(), e.modes()) {
        b.reverse();
        let b: Vec<f64> = b.iter().map(|m| n - m).collect();
        let close = a.iter().all(|m| b.iter().any(|o| (o - m).abs() <= 1.0)) && a.len().abs_diff(b.len()) <= 1;
        // An exact tie may be seen from one side only.
        ensure(a == b || !c.spec.is_tidy() && close, || format!("modes: {:?} and {:?}", a, b))?;
    }
    Ok(())
}

/// Powers and inverses of lognormal variables.
fn powers(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let Spec::Lognormal { mu, sigma } = c.spec else { return Ok(()) };
    let d = c.spec.build();
    let double = Spec::Lognormal { mu: 2.0 * mu, sigma: 2.0 * sigma };
    let inverse = Spec::Lognormal { mu: -mu, sigma };
    let (e, r) = (double.build(), inverse.build());
    for w in &c.ns {
        let x = 2f64.powi((w % 61) as i32 - 30);
        let f = d.cdf(x);
        near("cdf of the square", e.cdf(x * x), f, slack(&c.spec, x) + slack(&double, x * x))?;
        near("cdf of the inverse", r.cdf(1.0 / x), 1.0 - f, slack(&c.spec, x) + slack(&inverse, 1.0 / x) + 4.0 * EPS)?;
        let g = d.density(x).unwrap();
        if g > 1e-250 {
            let cond = refm::ln_density(&c.spec, x).1;
            let rel = LOOSE + 8.0 * density_rel(&c.spec, x, cond);
            near("density of the square", e.density(x * x).unwrap() * 2.0 * x, g, rel * g)?;
            near("density of the inverse", r.density(1.0 / x).unwrap() / (x * x), g, rel * g)?;
        }
        ctx.nontrivial |= f > 1e-9 && f < 1.0 - 1e-9;
        let u = (1 + w % 1023) as f64 / 1024.0;
        let x = d.inverse(u).unwrap();
        near("inverse of the square", e.inverse(u).unwrap(), x * x, LOOSE * x * x)?;
        near("inverse of the inverse", r.inverse(1.0 - u).unwrap(), 1.0 / x, LOOSE / x)?;
        let (mut a, mut b) = (Words::new(vec![], *w), Words::new(vec![], *w));
        let x = d.sample(&mut a);
        near("sample of the square", e.sample(&mut b), x * x, LOOSE * x * x)?;
    }
    let m = d.median().unwrap();
    near("median of the square", e.median().unwrap(), m * m, LOOSE * m * m)?;
    near("median of the inverse", r.median().unwrap(), 1.0 / m, LOOSE / m)
}

fn dyadic(lo: i32, hi: i32, d: i32) -> S<f64> {
    (lo * d..=hi * d).prop_map(move |v| v as f64 / d as f64).boxed()
}

/// Laws with dyadic parameters, and dyadic points to go with them.
fn dyadic_case() -> S<Case> {
    let m = || dyadic(-4, 4, 8);
    let s = || prop_oneof![(1i32..=64).prop_map(|v| v as f64 / 16.0), (0i32..12).prop_map(|v| 2f64.powi(v - 6))].boxed();
    let three = || {
        prop::collection::vec(-64i32..=64, 3).prop_filter("three points", |v| v[0] != v[1] && v[1] != v[2] && v[0] != v[2]).prop_map(|mut v| {
            v.sort();
            (v[0] as f64 / 16.0, v[1] as f64 / 16.0, v[2] as f64 / 16.0)
        })
    };
    let spec = Union::new(vec![
        (m(), s()).prop_map(|(x0, gamma)| Spec::Cauchy { x0, gamma }).boxed(),
        (m(), s()).prop_map(|(mu, sigma)| Spec::Gaussian { mu, sigma }).boxed(),
        (m(), s()).prop_map(|(mu, b)| Spec::Laplace { mu, b }).boxed(),
        (m(), s()).prop_map(|(mu, s)| Spec::Logistic { mu, s }).boxed(),
        s().prop_map(|lambda| Spec::Exponential { lambda }).boxed(),
        (shape(-1.0, 2.5), s()).prop_map(|(k, theta)| Spec::Gamma { k, theta }).boxed(),
        (shape(-1.0, 2.5), shape(-1.0, 2.5), three()).prop_map(|(alpha, beta, (a, _, b))| Spec::Beta { alpha, beta, a, b }).boxed(),
        (shape(-1.0, 2.5), shape(-1.0, 2.5), three()).prop_map(|(alpha, beta, (a, _, b))| Spec::Beta { alpha, beta, a, b }).boxed(),
        three().prop_map(|(a, b, c)| Spec::Pert { a, b, c }).boxed(),
        (three(), 0u32..6).prop_map(|((a, c, b), how)| Spec::Triangular { a, b, c: if how == 0 { a } else if how == 1 { b } else { c } }).boxed(),
        three().prop_map(|(a, _, b)| Spec::Uniform { a, b }).boxed(),
    ]);
    (spec, prop::collection::vec((0.0f64..1.0, 0u32..10), 3), any::<[u64; 3]>())
        .prop_map(|(spec, g, ns)| {
            let xs = g
                .iter()
                .map(|&(u, how)| {
                    let x = match how {
                        0 => landmarks(&spec)[0],
                        1 => spec.aim().0 + 30.0 * (u - 0.5) * spec.aim().1,
                        _ => natural(&spec, 7.0 * (u - 0.5)),
                    };
                    // Dyadic, so that scaling and shifting are exact.
                    (x.clamp(-4000.0, 4000.0) * 1024.0).round() / 1024.0
                })
                .collect();
            Case { spec, xs, ns: ns.to_vec() }
        })
        .boxed()
}

pub fn p18() -> Property {
    Property {
        id: "P18",
        rule: "random law with dyadic parameters and points, so that k x + m is exact; cdf, density, quantile, moments, entropy, median, modes and samples must move with it; likewise reflection, n - X for counts, powers of lognormal variables; non-trivial when some point has both tails above 1e-9",
        families: vec![
            Family { name: "affine", strategy: dyadic_case, oracle: affine, quick: 120_000, thorough: 6_000_000, chunk: 250 },
            Family { name: "mirror", strategy: dyadic_case, oracle: reflected, quick: 120_000, thorough: 6_000_000, chunk: 250 },
            Family { name: "counts", strategy: || with_points(discrete(), 3), oracle: swapped, quick: 80_000, thorough: 4_000_000, chunk: 250 },
            Family {
                name: "powers",
                strategy: || (prop_oneof![3 => dyadic(-8, 8, 8), 1 => dyadic(-150, 150, 8)], (1i32..=64).prop_map(|v| v as f64 / 32.0), any::<[u64; 2]>()).prop_map(|(mu, sigma, ns)| Case { spec: Spec::Lognormal { mu, sigma }, xs: vec![], ns: ns.to_vec() }).boxed(),
                oracle: powers,
                quick: 40_000,
                thorough: 2_000_000,
                chunk: 250,
            },
        ],
    }
}

// --- P19: special cases ----------------------------------------------------------

/// Two descriptions of the same law agree on everything both offer.
fn same(c: &Case, a: &Spec, b: &Spec, ctx: &mut Ctx) -> Result<(), String> {
    let (d, e) = (a.build(), b.build());
    let tag = |what: &str| format!("{} of {} and {}", what, a.name(), b.name());
    let loose = LOOSE * a.kappa().max(b.kappa());
    let discrete = a.is_discrete();
    for &x in &c.xs {
        if x.is_nan() {
            continue;
        }
        let (f, g) = (d.cdf(x), e.cdf(x));
        near(&tag("cdf"), g, f, slack(a, x) + slack(b, x) + loose * f.min(1.0 - f))?;
        ctx.nontrivial |= f > 1e-9 && f < 1.0 - 1e-9;
        if discrete {
            let (_, n) = a.support();
            if x >= 0.0 && x <= n {
                let (f, g) = (d.mass(x as u64).unwrap(), e.mass(x as u64).unwrap());
                near(&tag("mass"), g, f, LOOSE * f + 4.0 * EPS)?;
            }
        } else {
            let (lo, hi) = a.support();
            if x > lo && x < hi && x.is_finite() {
                let (f, g) = (d.density(x).unwrap(), e.density(x).unwrap());
                // Next to an end, the distance to it is what is left of rounding.
                let room = (x - lo).min(hi - x);
                let grid = EPS * if hi.is_finite() { lo.abs().max(hi.abs()) } else { 0.0 };
                // The exponential comes before the division by the scale.
                let raw = f * a.aim().1;
                if f.min(raw) > 1e-250 && room > 1e9 * grid && room > 1e-290 {
                    let cond = refm::ln_density(a, x).1.max(refm::ln_density(b, x).1);
                    near(&tag("density"), g, f, f * (loose + 2.0 * density_rel(a, x, cond) + 2.0 * density_rel(b, x, cond)))?;
                }
            } else if x < lo || x > hi {
                near(&tag("density"), e.density(x).unwrap(), d.density(x).unwrap(), 0.0)?;
            }
        }
    }
    for &w in &c.ns {
        let u = unit(w);
        if let (Some(x), Some(y)) = (d.inverse(u), e.inverse(u)) {
            if discrete {
                // Next to a step rounding may decide.
                let near_step = (0..=1).any(|j| {
                    let k = x.min(y) + j as f64 - if x == y { 1.0 } else { 0.0 };
                    k >= 0.0 && (d.cdf(k) - u).abs() <= 1e-9 * u.min(1.0 - u) + 8.0 * EPS
                });
                ensure(x == y || (x - y).abs() <= 1.0 && near_step, || format!("{}: at {:e}, {} and {}", tag("inverse"), u, x, y))?;
            } else if x.is_finite() && y.is_finite() && u > 0.0 {
                for (s, z) in [(a, y), (b, x)] {
                    let (dx, sl) = quantile_slack(s, u, z);
                    let (dy, sm) = quantile_slack(if s == a { b } else { a }, u, z);
                    let off = outside(s, u, z, dx + dy);
                    ensure(off <= sl + sm + loose * u.min(1.0 - u), || format!("{}: at {:e}, {:e} and {:e}", tag("inverse"), u, x, y))?;
                }
            }
        }
    }
    if let (Some(p), Some(q)) = (d.mean(), e.mean()) {
        let (v, w) = (d.variance().unwrap(), e.variance().unwrap());
        near(&tag("mean"), q, p, loose * (p.abs() + v.sqrt()))?;
        near(&tag("variance"), w, v, loose * v)?;
        near(&tag("deviation"), e.deviation().unwrap(), d.deviation().unwrap(), loose * v.sqrt())?;
        if v > 1e-200 {
            let (p, q) = (d.skewness().unwrap(), e.skewness().unwrap());
            near(&tag("skewness"), q, p, loose * (1.0 + p.abs()))?;
            let (p, q) = (d.kurtosis().unwrap(), e.kurtosis().unwrap());
            near(&tag("kurtosis"), q, p, loose * (1.0 + p.abs()))?;
        }
    }
    let (p, q) = (d.entropy(), e.entropy());
    near(&tag("entropy"), q, p, loose * (1.0 + p.abs()))?;
    if let (Some(p), Some(q)) = (d.median(), e.median()) {
        // Where one half is taken over an interval, any point of it will do.
        let flat = discrete && (p - q).abs() <= 1.0 && [p, q].iter().all(|m| (d.cdf(m.floor()) - 0.5).abs() < 1e-12 || d.cdf(m.floor()) > 0.5);
        if !flat {
            near(&tag("median"), q, p, loose * (p.abs() + c.spec.aim().1))?;
        }
    }
    if let (Some(p), Some(q)) = (d.modes(), e.modes()) {
        // Masses that tie up to rounding may be reported alone or together.
        let near_tie = p != q && discrete && {
            let all: Vec<f64> = p.iter().chain(&q).map(|&m| d.mass(m as u64).unwrap()).collect();
            let top = all.iter().fold(0.0f64, |s, &m| s.max(m));
            all.iter().all(|&m| m > top * (1.0 - 1e-12))
        };
        if !p.is_empty() && !q.is_empty() && !near_tie {
            ensure(p.len() == q.len() && p.iter().zip(&q).all(|(x, y)| (x - y).abs() <= loose * (x.abs() + c.spec.aim().1)), || format!("{}: {:?} and {:?}", tag("modes"), p, q))?;
        }
    }
    Ok(())
}

fn special(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    match &c.spec {
        Spec::Exponential { lambda } => same(c, &c.spec, &Spec::Gamma { k: 1.0, theta: 1.0 / lambda }, ctx),
        Spec::Uniform { a, b } => {
            same(c, &c.spec, &Spec::Beta { alpha: 1.0, beta: 1.0, a: *a, b: *b }, ctx)?;
            Ok(())
        }
        Spec::Triangular { a, b, c: m } if m == a => same(c, &c.spec, &Spec::Beta { alpha: 1.0, beta: 2.0, a: *a, b: *b }, ctx),
        Spec::Triangular { a, b, c: m } if m == b => same(c, &c.spec, &Spec::Beta { alpha: 2.0, beta: 1.0, a: *a, b: *b }, ctx),
        Spec::Pert { a, c: b, .. } => {
            let Dist::Pert(d) = c.spec.build() else { return Ok(()) };
            let s = Spec::Beta { alpha: d.alpha(), beta: d.beta(), a: *a, b: *b };
            // The median of a beta law is an approximation; compare the rest.
            same_but_median(c, &c.spec, &s, ctx)
        }
        Spec::Bernoulli { p } => {
            same(c, &c.spec, &Spec::Binomial { n: 1, p: *p }, ctx)?;
            same_but_median(c, &c.spec, &Spec::Categorical { p: vec![1.0 - p, *p] }, ctx)
        }
        Spec::BernoulliF { q } => {
            same(c, &c.spec, &Spec::BinomialF { n: 1, q: *q }, ctx)?;
            same_but_median(c, &c.spec, &Spec::Categorical { p: vec![*q, 1.0 - q] }, ctx)
        }
        Spec::Binomial { n, .. } | Spec::BinomialF { n, .. } => {
            // The masses as a categorical law; they may miss one by rounding.
            let d = c.spec.build();
            let p: Vec<f64> = (0..=*n).map(|k| d.mass(k).unwrap().min(1.0)).collect();
            if (p.iter().sum::<f64>() - 1.0).abs() > 9e-13 {
                return Ok(());
            }
            let s = Spec::Categorical { p };
            let mut k = c.clone();
            k.xs.retain(|x| *x < *n as f64);
            same_but_median(&k, &c.spec, &s, ctx)
        }
        _ => Ok(()),
    }
}

fn same_but_median(c: &Case, a: &Spec, b: &Spec, ctx: &mut Ctx) -> Result<(), String> {
    match same(c, a, b, ctx) {
        Err(m) if m.starts_with("median") => Ok(()),
        r => r,
    }
}

fn special_spec() -> S<Spec> {
    Union::new(vec![
        exponential_spec(),
        uniform_spec(),
        interval().prop_map(|(a, b)| Spec::Triangular { a, b, c: a }).boxed(),
        interval().prop_map(|(a, b)| Spec::Triangular { a, b, c: b }).boxed(),
        pert_spec(),
        prob().prop_map(|p| Spec::Bernoulli { p }).boxed(),
        prob().prop_map(|q| Spec::BernoulliF { q }).boxed(),
        // Up to ten trials: the table of finding `binomial-stirlerr-11` starts
        // to matter at eleven.
        (1u64..=10, prob()).prop_map(|(n, p)| Spec::Binomial { n, p }).boxed(),
        (1u64..=10, prob()).prop_map(|(n, q)| Spec::BinomialF { n, q }).boxed(),
    ])
    .boxed()
}

/// Identities between the CDFs of different families.
fn bridges(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let x = c.xs[0];
    let tol2 = |a: &Spec, x: f64, b: &Spec, y: f64| slack(a, x) + slack(b, y) + 8.0 * EPS;
    match &c.spec {
        Spec::Lognormal { mu, sigma } => {
            // exp of a Gaussian; x is the Gaussian point.
            let g = Spec::Gaussian { mu: *mu, sigma: *sigma };
            let (d, l) = (g.build(), c.spec.build());
            let y = x.exp();
            if !(y > 1e-290 && y < 1e290) {
                return Ok(());
            }
            let f = d.cdf(x);
            let z = (x - mu) / sigma;
            let shift = 0.4 * (-0.5 * z * z).exp() / sigma * EPS * (2.0 + 2.0 * x.abs()) * 4.0;
            ctx.nontrivial = f > 1e-9 && f < 1.0 - 1e-9;
            near("lognormal cdf", l.cdf(y), f, tol2(&g, x, &c.spec, y) + shift)?;
            let p = d.density(x).unwrap();
            if p > 1e-250 {
                let rel = LOOSE + 8.0 * density_rel(&c.spec, y, refm::ln_density(&c.spec, y).1) + 8.0 * EPS * (1.0 + x.abs()) * (z.abs() / sigma + 1.0);
                near("lognormal density", l.density(y).unwrap() * y, p, rel * p)?;
            }
            let u = unit(c.ns[0]);
            let (p, q) = (d.inverse(u).unwrap(), l.inverse(u).unwrap());
            near("lognormal inverse", q, p.exp(), LOOSE * p.exp())?;
            near("lognormal median", l.median().unwrap(), mu.exp(), LOOSE * mu.exp())?;
            near("lognormal entropy", l.entropy(), d.entropy() + mu, 1e-9 * (1.0 + mu.abs() + d.entropy().abs()))
        }
        Spec::Beta { alpha, beta, a, b } => {
            let t = (x - a) / (b - a);
            if *a != 0.0 || *b != 1.0 || !(t > 1e-300 && t < 1.0) {
                return Ok(());
            }
            let d = c.spec.build();
            let f = d.cdf(x);
            ctx.nontrivial = f > 1e-9 && f < 1.0 - 1e-9;
            let near_ = |w: f64| near("beta closed form", f, w, slack(&c.spec, x) + 1e-13);
            if *beta == 1.0 {
                near_(t.powf(*alpha))?;
            }
            if *alpha == 1.0 {
                near_(-(beta * (-t).ln_1p()).exp_m1())?;
            }
            if *alpha == 0.5 && *beta == 0.5 {
                near_(std::f64::consts::FRAC_2_PI * t.sqrt().asin())?;
            }
            if *alpha == 2.0 && *beta == 2.0 {
                near_(t * t * (3.0 - 2.0 * t))?;
            }
            // I(a, b) - I(a + 1, b) = t^a (1 - t)^b / (a B(a, b)), the density
            // times t (1 - t) / a.
            let up = Spec::Beta { alpha: alpha + 1.0, beta: *beta, a: 0.0, b: 1.0 };
            let p = d.density(x).unwrap();
            if p.is_finite() && t < 0.999 {
                let step = p * t * (1.0 - t) / alpha;
                near("beta recurrence", up.build().cdf(x), f - step, tol2(&c.spec, x, &up, x) + 1e-9 * step)?;
            }
            Ok(())
        }
        Spec::Binomial { n, p } => {
            // P(X <= k) = I_q(n - k, k + 1).
            let k = x.floor();
            if !(k >= 0.0 && k < *n as f64) {
                return Ok(());
            }
            let d = c.spec.build();
            let q = 1.0 - p;
            let s = Spec::Beta { alpha: *n as f64 - k, beta: k + 1.0, a: 0.0, b: 1.0 };
            let f = d.cdf(k);
            ctx.nontrivial = f > 1e-9 && f < 1.0 - 1e-9;
            near("binomial cdf", f, s.build().cdf(q), tol2(&c.spec, k, &s, q))?;
            // F(k) - F(k - 1) is the mass (to the extent of the findings).
            let m = d.mass(k as u64).unwrap();
            near("binomial step", f - if k > 0.0 { d.cdf(k - 1.0) } else { 0.0 }, m, 4e-4 * m + 2.0 * slack(&c.spec, k) + 1e-13)
        }
        Spec::Gamma { k, theta } => {
            let z = x / theta;
            if !(z > 0.0 && z < 1e4) {
                return Ok(());
            }
            let d = c.spec.build();
            let f = d.cdf(x);
            ctx.nontrivial = f > 1e-9 && f < 1.0 - 1e-9;
            if *k == k.trunc() && *k < 40.0 {
                // Poisson: 1 - e^-z sum z^i / i!.
                let (mut t, mut s) = (1.0, 0.0);
                for i in 0..*k as u32 {
                    s += t;
                    t *= z / (i + 1) as f64;
                }
                near("gamma and poisson", 1.0 - f, (-z).exp() * s, slack(&c.spec, x) + 1e-12)?;
            }
            // F(k) - F(k + 1) = z^k e^-z / Gamma(k + 1), the density times
            // theta z / k.
            let up = Spec::Gamma { k: k + 1.0, theta: *theta };
            let step = d.density(x).unwrap() * theta * z / k;
            near("gamma recurrence", up.build().cdf(x), f - step, tol2(&c.spec, x, &up, x) + 1e-9 * step)
        }
        Spec::Gaussian { .. } => {
            // X^2 is chi-square: Gamma(1/2, 2), at a point whose square is exact.
            let x = (x.abs().min(30.0) * 1024.0).round() / 1024.0;
            let g = Spec::Gaussian { mu: 0.0, sigma: 1.0 };
            let s = Spec::Gamma { k: 0.5, theta: 2.0 };
            let d = g.build();
            let f = d.cdf(x) - d.cdf(-x);
            ctx.nontrivial = f > 1e-9 && f < 1.0 - 1e-9;
            near("chi-square", s.build().cdf(x * x), f, 2.0 * slack(&g, x) + slack(&s, x * x) + 1e-14)
        }
        Spec::Laplace { mu, b } => {
            // |X - mu| is exponential.
            let t = (x - mu).abs();
            if (mu + t) - mu != t || mu - (mu - t) != t {
                return Ok(());
            }
            let d = c.spec.build();
            let e = Spec::Exponential { lambda: 1.0 / b };
            let f = d.cdf(mu + t) - d.cdf(mu - t);
            ctx.nontrivial = f > 1e-9 && f < 1.0 - 1e-9;
            near("laplace modulus", e.build().cdf(t), f, slack(&c.spec, mu + t) + slack(&c.spec, mu - t) + slack(&e, t) + 1e-14)
        }
        Spec::Exponential { lambda } => {
            // No memory.
            let t = c.ns[0] % 1000;
            let (s, t) = (x.abs(), t as f64 / 100.0 / lambda);
            if !s.is_finite() {
                return Ok(());
            }
            let d = c.spec.build();
            let (f, g, h) = (1.0 - d.cdf(s), 1.0 - d.cdf(t), 1.0 - d.cdf(s + t));
            ctx.nontrivial = h > 1e-9 && f < 1.0 - 1e-9;
            near("memory", h, f * g, 1e-12)
        }
        Spec::Cauchy { gamma, .. } => {
            // 1 / X is of the same kind: with scale one, F(x) + F(1/x) = 3/2.
            let s = Spec::Cauchy { x0: 0.0, gamma: *gamma };
            let r = Spec::Cauchy { x0: 0.0, gamma: 1.0 / gamma };
            let y = 2f64.powi((c.ns[0] % 81) as i32 - 40);
            let (d, e) = (s.build(), r.build());
            ctx.nontrivial = true;
            near("cauchy inverse", d.cdf(y) + e.cdf(1.0 / y), 1.5, 1e-14)
        }
        Spec::Logistic { mu, s } => {
            // The density is F (1 - F) / s.
            let d = c.spec.build();
            let f = d.cdf(x);
            let _ = mu;
            ctx.nontrivial = f > 1e-9 && f < 1.0 - 1e-9;
            near("logistic density", d.density(x).unwrap() * s, f * (1.0 - f), 1e-12)
        }
        _ => Ok(()),
    }
}

fn bridge_case() -> S<Case> {
    let spec = Union::new(vec![
        (dyadic(-8, 8, 8), pow10(-3.0, 0.5)).prop_map(|(mu, sigma)| Spec::Lognormal { mu, sigma }).boxed(),
        (shape(-1.5, 3.0), shape(-1.5, 3.0)).prop_map(|(alpha, beta)| Spec::Beta { alpha, beta, a: 0.0, b: 1.0 }).boxed(),
        (select(vec![0.5, 1.0, 2.0]), shape(-1.5, 3.0), any::<bool>())
            .prop_map(|(s, t, f)| if f { Spec::Beta { alpha: s, beta: t, a: 0.0, b: 1.0 } } else { Spec::Beta { alpha: t, beta: s, a: 0.0, b: 1.0 } })
            .boxed(),
        select(vec![0.5, 2.0]).prop_map(|s| Spec::Beta { alpha: s, beta: s, a: 0.0, b: 1.0 }).boxed(),
        // 1 - p is exact.
        (1u64..3000, 1u32..4096).prop_map(|(n, k)| Spec::Binomial { n, p: k as f64 / 4096.0 }).boxed(),
        (1u64..60, 1u32..16).prop_map(|(n, k)| Spec::Binomial { n, p: k as f64 / 16.0 }).boxed(),
        gamma_spec_in(-1.0, 3.0),
        (1u32..40, scale(-3.0, 3.0)).prop_map(|(k, theta)| Spec::Gamma { k: k as f64, theta }).boxed(),
        Just(Spec::Gaussian { mu: 0.0, sigma: 1.0 }).boxed(),
        laplace_spec(),
        (dyadic(-4, 4, 8), scale(-2.0, 2.0)).prop_map(|(mu, b)| Spec::Laplace { mu, b }).boxed(),
        exponential_spec(),
        pow10(-2.0, 2.0).prop_map(|gamma| Spec::Cauchy { x0: 0.0, gamma }).boxed(),
        logistic_spec(),
    ]);
    (spec, 0..POINT_KINDS, 0.0f64..1.0, any::<u64>())
        .prop_map(|(spec, kind, u, w)| {
            let x = match &spec {
                Spec::Lognormal { mu, sigma } => mu + sigma * 12.0 * (u - 0.5),
                s => point(s, kind, u),
            };
            Case { spec, xs: vec![x], ns: vec![w] }
        })
        .boxed()
}

pub fn p19() -> Property {
    Property {
        id: "P19",
        rule: "random member of a special case shared by two families (Gamma(1) and exponential, Beta(1, 1) and uniform, Beta(1, 2) and triangular, PERT and beta, Bernoulli, binomial and categorical) compared in everything both offer; closed forms and recurrences that tie the CDFs of different families together; non-trivial when some point has both tails above 1e-9",
        families: vec![
            Family { name: "special", strategy: || with_points(special_spec(), 2).prop_flat_map(|c| prop::collection::vec(any::<u64>(), 2).prop_map(move |ns| Case { ns, ..c.clone() })).boxed(), oracle: special, quick: 120_000, thorough: 6_000_000, chunk: 250 },
            Family { name: "bridges", strategy: bridge_case, oracle: bridges, quick: 300_000, thorough: 15_000_000, chunk: 500 },
        ],
    }
}

// --- P20: totality ------------------------------------------------------------------

fn total(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let (a, b) = c.spec.support();
    let discrete = c.spec.is_discrete();
    ctx.nontrivial = true;
    let slack = if a.is_finite() && b.is_finite() && !discrete { 8.0 * EPS * a.abs().max(b.abs()) } else { 0.0 };
    let inside = |what: &str, x: f64| ensure(x >= a - slack && x <= b + slack, || format!("support: {} is {:e}, outside [{:e}, {:e}]", what, x, a, b));
    for &x in &c.xs {
        let f = d.cdf(x);
        ensure(f >= 0.0 && f <= 1.0 + 1e-14, || format!("range: distribution({:e}) = {:e}", x, f))?;
        if discrete {
            let k = x.max(0.0).min(b).floor();
            let m = d.mass(k as u64).unwrap();
            ensure(m >= 0.0 && m <= 1.0 + 1e-6, || format!("range: mass({}) = {:e}", k, m))?;
        } else {
            let f = d.density(x).unwrap();
            ensure(f >= 0.0, || format!("range: density({:e}) = {:e}", x, f))?;
        }
        if let Some(w) = c.ns.first() {
            let u = match w % 7 {
                0 => 0.0,
                1 => 1.0,
                2 => 5e-324,
                3 => 1.0 - EPS / 2.0,
                4 => 10f64.powf(-300.0 * unit(*w)),
                5 => 1.0 - 10f64.powf(-15.0 * unit(*w)),
                _ => unit(*w),
            };
            if let Some(q) = d.inverse(u) {
                inside(&format!("inverse({:e})", u), q)?;
            }
        }
    }
    let mut s = Words::new(c.ns.clone(), 7);
    s.fuel = 400_000;
    let x = d.sample(&mut s);
    inside("a sample", x)?;
    if let Some(m) = d.mean() {
        inside("the mean", m)?;
        let v = d.variance().unwrap();
        ensure(v >= 0.0, || format!("range: variance {:e}", v))?;
        let w = d.deviation().unwrap();
        ensure(w >= 0.0, || format!("range: deviation {:e}", w))?;
        // (The shape of a law whose variance underflows is anybody's guess, but
        // it does not depend on the variance of a lognormal one.)
        if v > 1e-290 && v < 1e290 || matches!(c.spec, Spec::Lognormal { sigma, .. } if sigma > 1e-150) {
            let (g, k) = (d.skewness().unwrap(), d.kurtosis().unwrap());
            ensure(!g.is_nan(), || "nan: skewness".to_string())?;
            ensure(!k.is_nan() && k >= -2.0 - 1e-6, || format!("range: kurtosis {:e}", k))?;
        }
    }
    if let Some(m) = d.median() {
        inside("the median", m)?;
    }
    for m in d.modes().into_iter().flatten() {
        inside("a mode", m)?;
    }
    // A sum over all values: not for the largest.
    let long = matches!(&c.spec, Spec::Binomial { n, .. } | Spec::BinomialF { n, .. } if *n > 20_000);
    if !long {
        let h = d.entropy();
        ensure(!h.is_nan(), || "nan: entropy".to_string())?;
        if discrete {
            ensure(h >= -1e-9 && h <= (b + 1.0).ln() + 1e-6, || format!("range: entropy {:e}", h))?;
        }
    }
    if newton_regime(&c.spec) {
        ctx.label("newton");
    }
    Ok(())
}

pub fn p20() -> Property {
    Property {
        id: "P20",
        rule: "random distribution with extreme parameters (scales 1e-100 to 1e100 and beyond, log-scales to 1e3, shapes 1e-5 to 1e6, probabilities from 1e-300 to 1 - 2^-53, n to 1e9; or many orders of magnitude apart; or up to 4000 categories), every method at extreme points, probabilities and source words: no panic, no NaN, range and support respected, an answer within 60 s of CPU time; every case is non-trivial",
        families: vec![Family {
            name: "extreme",
            strategy: || {
                (with_points(prop_oneof![8 => extreme(), 4 => brisk(), 1 => long()].boxed(), 3), prop::collection::vec(word(), 1..5)).prop_map(|(c, ns)| Case { ns, ..c }).boxed()
            },
            oracle: total,
            quick: 720_000,
            thorough: 36_000_000,
            chunk: 100,
        }],
    }
}
