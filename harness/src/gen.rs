//! Generators: parameter domains, evaluation points, probabilities.

use crate::spec::Spec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::Union;

pub type S<T> = BoxedStrategy<T>;

/// A generated case: one distribution, evaluation points (or probabilities),
/// and integers (seeds, raw words of a scripted source, counts).
#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub spec: Spec,
    pub xs: Vec<f64>,
    pub ns: Vec<u64>,
}

pub fn pow10(lo: f64, hi: f64) -> S<f64> {
    (lo..hi).prop_map(|e: f64| 10f64.powf(e)).boxed()
}

/// A positive scale within 10^[lo, hi], with plain values mixed in.
pub fn scale(lo: f64, hi: f64) -> S<f64> {
    prop_oneof![
        2 => select(vec![1.0, 2.0, 0.5, 3.0, 0.25, 5.0, 10.0, 0.1, 1.5]),
        1 => (1u32..40).prop_map(|v| v as f64 / 4.0),
        4 => pow10(lo, hi),
    ]
    .boxed()
}

pub fn offset(hi: f64) -> S<f64> {
    prop_oneof![
        3 => Just(0.0),
        2 => (-20i32..=20).prop_map(|v| v as f64 / 2.0),
        2 => pow10(-3.0, hi),
        2 => pow10(-3.0, hi).prop_map(|v| -v),
    ]
    .boxed()
}

pub fn prob() -> S<f64> {
    prop_oneof![
        1 => Just(0.5),
        2 => (1u32..16).prop_map(|k| k as f64 / 16.0),
        2 => (1u32..100).prop_map(|k| k as f64 / 100.0),
        4 => 0.001f64..0.999,
        2 => pow10(-12.0, -1.0),
        2 => pow10(-12.0, -1.0).prop_map(|v| 1.0 - v),
        1 => pow10(-15.0, -3.0).prop_map(|v| 0.5 + v),
        1 => pow10(-15.0, -3.0).prop_map(|v| 0.5 - v),
        1 => (select(vec![0.5f64, 0.25, 0.75, 1.0 / 3.0, 2.0 / 3.0, 0.1]), 0i64..9).prop_map(|(v, k)| f64::from_bits((v.to_bits() as i64 + k - 4) as u64)),
    ]
    .boxed()
}

/// A probability argument of a quantile function, in the closed interval.
pub fn quantile_arg() -> S<f64> {
    prop_oneof![
        1 => Just(0.5),
        1 => Just(0.0),
        1 => Just(1.0),
        2 => (1u32..64).prop_map(|k| k as f64 / 64.0),
        2 => (1u32..1000).prop_map(|k| k as f64 / 1000.0),
        6 => 0.0f64..1.0,
        2 => pow10(-16.0, -1.0),
        1 => pow10(-300.0, -16.0),
        2 => pow10(-15.0, -1.0).prop_map(|v| 1.0 - v),
        1 => (pow10(-16.0, -2.0), any::<bool>()).prop_map(|(v, minus)| 0.5 + if minus { -v } else { v }),
        1 => Just(1.0 - f64::EPSILON / 2.0),
        1 => Just(f64::MIN_POSITIVE),
        1 => Just(5e-324),
    ]
    .boxed()
}

pub fn interval() -> S<(f64, f64)> {
    prop_oneof![
        2 => Just((0.0, 1.0)),
        1 => Just((-1.0, 2.0)),
        2 => (-10i32..10, 1u32..20).prop_map(|(a, w)| (a as f64 / 2.0, a as f64 / 2.0 + w as f64 / 4.0)),
        // Width set relative to the offset: at most 1e4 cancellation.
        3 => (offset(5.0), -4.0f64..4.0).prop_map(|(a, e)| {
            let w = if a == 0.0 { 1.0 } else { a.abs() } * 10f64.powf(e);
            (a, a + w)
        }),
        1 => (pow10(-6.0, 6.0)).prop_map(|w| (0.0, w)),
        1 => (pow10(-6.0, 6.0)).prop_map(|w| (-w, 0.0)),
        1 => (pow10(-6.0, 6.0)).prop_map(|w| (-w, w)),
        1 => (-4i32..=4, pow10(-120.0, 120.0)).prop_map(|(m, w)| (0.25 * m as f64 * w, 0.25 * m as f64 * w + w)),
    ]
    .prop_filter("a < b", |(a, b)| a < b)
    .boxed()
}

/// A shape parameter of a beta distribution.
pub fn shape(lo: f64, hi: f64) -> S<f64> {
    prop_oneof![
        3 => select(vec![1.0, 2.0, 0.5, 3.0, 1.5, 5.0, 10.0]),
        1 => select(vec![1.0 + 1e-9, 1.0 - 1e-9, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 0.999, 1.001]),
        3 => 0.05f64..8.0,
        3 => pow10(lo, hi),
    ]
    .boxed()
}

/// A whole number, or a half more, up to 10^hi.
fn whole(hi: f64) -> S<f64> {
    (pow10(0.0, hi), any::<bool>()).prop_map(|(v, half)| v.floor() + if half { 0.5 } else { 0.0 }).boxed()
}

pub fn beta_spec() -> S<Spec> {
    beta_spec_in(-1.5, 3.0)
}

pub fn beta_spec_in(lo: f64, hi: f64) -> S<Spec> {
    prop_oneof![
        8 => (shape(lo, hi), shape(lo, hi), interval())
            .prop_map(|(alpha, beta, (a, b))| Spec::Beta { alpha, beta, a, b }),
        2 => (shape(lo, hi), interval()).prop_map(|(s, (a, b))| Spec::Beta { alpha: s, beta: s, a, b }),
        // Integers, and shapes tied to each other.
        1 => (whole(hi), whole(hi), interval()).prop_map(|(alpha, beta, (a, b))| Spec::Beta { alpha, beta, a, b }),
        1 => (shape(lo, hi), 0u8..6, 0.05f64..0.95, interval()).prop_map(|(s, kind, t, (a, b))| {
            let (alpha, beta) = match kind {
                0 => (s, s + 1.0),
                1 => (s + 1.0, s),
                2 => (t, 1.0 - t),
                3 => (1.0 + t, 1.0 - t),
                4 => (2.0 * s, s),
                _ => (s, s * (1.0 + 1e-7 * t)),
            };
            Spec::Beta { alpha, beta, a, b }
        }),
    ]
    .boxed()
}

pub fn three() -> S<(f64, f64, f64)> {
    prop_oneof![
        2 => (1u32..16).prop_map(|k| (0.0, k as f64 / 16.0, 1.0)),
        4 => (interval(), 0.0f64..1.0).prop_map(|((a, b), t)| (a, a + (b - a) * t, b)),
        1 => (interval(), pow10(-9.0, -1.0)).prop_map(|((a, b), t)| (a, a + (b - a) * t, b)),
        1 => (interval(), pow10(-9.0, -1.0)).prop_map(|((a, b), t)| (a, b - (b - a) * t, b)),
        1 => interval().prop_map(|(a, b)| (a, 0.5 * (a + b), b)),
    ]
    .boxed()
}

pub fn pert_spec() -> S<Spec> {
    three()
        .prop_filter("a < b < c", |(a, b, c)| a < b && b < c)
        .prop_map(|(a, b, c)| Spec::Pert { a, b, c })
        .boxed()
}

pub fn triangular_spec() -> S<Spec> {
    prop_oneof![
        6 => three().prop_map(|(a, c, b)| Spec::Triangular { a, b, c: c.max(a).min(b) }),
        1 => interval().prop_map(|(a, b)| Spec::Triangular { a, b, c: a }),
        1 => interval().prop_map(|(a, b)| Spec::Triangular { a, b, c: b }),
    ]
    .boxed()
}

pub fn uniform_spec() -> S<Spec> {
    interval().prop_map(|(a, b)| Spec::Uniform { a, b }).boxed()
}

pub fn bernoulli_spec() -> S<Spec> {
    prop_oneof![
        prob().prop_map(|p| Spec::Bernoulli { p }),
        prob().prop_map(|q| Spec::BernoulliF { q }),
        pow10(-300.0, -12.0).prop_map(|q| Spec::BernoulliF { q }),
        pow10(-300.0, -12.0).prop_map(|p| Spec::Bernoulli { p }),
    ]
    .boxed()
}

pub fn trials(hi: f64) -> S<u64> {
    let small = prop_oneof![
        4 => 0u64..=20,
        2 => 21u64..=300,
        1 => select(vec![997u64, 998, 999, 1000, 1001, 1002, 1003]),
        1 => 300u64..=999,
        1 => 1000u64..=5000,
        1 => (2u32..14, -1i64..=1).prop_map(|(e, d)| ((1i64 << e) + d) as u64),
        1 => select(vec![9999u64, 10000, 10001, 10002, 20000]),
    ];
    if hi > 4.0 {
        prop_oneof![
            10 => small,
            3 => (3.5..hi).prop_map(|e: f64| 10f64.powf(e) as u64),
            1 => (11.0..hi / 2f64.log10()).prop_map(|e: f64| 1u64 << e as u32),
        ]
        .boxed()
    } else {
        let cap = 10f64.powf(hi) as u64;
        small.prop_map(move |n| n.min(cap)).boxed()
    }
}

/// Success (or failure) probability for `n` trials, often aimed at the
/// variance where an implementation may switch methods.
pub fn binomial_spec(hi: f64) -> S<Spec> {
    (trials(hi), prob(), 0u32..12, -2.0f64..3.0, any::<bool>())
        .prop_map(|(n, p, how, e, failure)| {
            let target = 10f64.powf(e);
            let mut p = p;
            if how < 4 && n > 0 {
                // npq near `target` (spans 80), or np = target.
                let c = if how == 0 { 80.0 * (1.0 + (target - 300.0) / 3000.0) } else { target };
                let v = c / n as f64;
                if v < 0.25 {
                    let r = 0.5 * (1.0 - (1.0 - 4.0 * v).sqrt());
                    // The small root of r (1 - r) = v, stable for small v.
                    let r = if v < 1e-3 { v + v * v } else { r };
                    p = if how == 3 { 1.0 - r } else { r };
                }
            }
            if !(p > 0.0 && p < 1.0) {
                p = 0.5;
            }
            if failure {
                Spec::BinomialF { n, q: p }
            } else {
                Spec::Binomial { n, p }
            }
        })
        .boxed()
}

pub fn normalise(w: Vec<f64>) -> Spec {
    let total: f64 = w.iter().sum();
    let mut p: Vec<f64> = if total > 0.0 { w.iter().map(|v| v / total).collect() } else { vec![1.0] };
    // Keep within the documented tolerance of one.
    let s: f64 = p.iter().sum();
    if (s - 1.0).abs() > 1e-13 {
        p = vec![1.0];
    }
    for v in p.iter_mut() {
        *v = v.min(1.0);
    }
    Spec::Categorical { p }
}

pub fn categorical_spec() -> S<Spec> {
    prop_oneof![
        // Exact dyadic probabilities, zeros included: 32 units dealt out.
        3 => (1usize..9, prop::collection::vec(0usize..64, 32), 0u32..3).prop_map(|(k, deal, units)| {
            let total = [32usize, 16, 8][units as usize];
            let mut p = vec![0.0; k];
            for d in deal.iter().take(total) {
                p[d % k] += 1.0 / total as f64;
            }
            Spec::Categorical { p }
        }),
        3 => prop::collection::vec(0u32..10, 1..12).prop_map(|w| normalise(w.into_iter().map(|v| v as f64).collect())),
        3 => prop::collection::vec(0.0f64..1.0, 1..12).prop_map(normalise),
        2 => prop::collection::vec(pow10(-14.0, 0.0), 1..10).prop_map(normalise),
        2 => (prop::collection::vec(0.0f64..1.0, 1..8), 1usize..4, 0usize..4).prop_map(|(w, before, after)| {
            let mut v = vec![0.0; before - 1];
            v.extend(w);
            v.extend(vec![0.0; after]);
            normalise(v)
        }),
        // Equal weights, whose rounded partial sums miss one.
        1 => (1usize..40, 0usize..3).prop_map(|(k, z)| {
            let mut w = vec![1.0; k];
            w.extend(vec![0.0; z]);
            normalise(w)
        }),
        1 => prop::collection::vec(0.0f64..1.0, 50..200).prop_map(normalise),
    ]
    .boxed()
}

pub fn location_scale(make: fn(f64, f64) -> Spec) -> S<Spec> {
    prop_oneof![
        3 => scale(-6.0, 6.0).prop_map(move |s| make(0.0, s)),
        5 => (offset(6.0), scale(-6.0, 6.0)).prop_map(move |(m, s)| make(m, s)),
        1 => (any::<bool>(), -3.0..3.0f64, pow10(-120.0, 120.0)).prop_map(move |(o, m, s)| make(if o { 0.0 } else { m * s }, s)),
    ]
    .boxed()
}

pub fn cauchy_spec() -> S<Spec> {
    location_scale(|x0, gamma| Spec::Cauchy { x0, gamma })
}
pub fn gaussian_spec() -> S<Spec> {
    location_scale(|mu, sigma| Spec::Gaussian { mu, sigma })
}
pub fn laplace_spec() -> S<Spec> {
    location_scale(|mu, b| Spec::Laplace { mu, b })
}
pub fn logistic_spec() -> S<Spec> {
    location_scale(|mu, s| Spec::Logistic { mu, s })
}
pub fn exponential_spec() -> S<Spec> {
    prop_oneof![8 => scale(-6.0, 6.0), 1 => pow10(-120.0, 120.0)].prop_map(|lambda| Spec::Exponential { lambda }).boxed()
}
pub fn gamma_spec() -> S<Spec> {
    gamma_spec_in(-1.5, 4.0)
}
pub fn gamma_spec_in(lo: f64, hi: f64) -> S<Spec> {
    (
        prop_oneof![
            2 => select(vec![1.0, 2.0, 0.5, 3.0, 9.0, 1.0 + 1e-9, 1.0 - 1e-9]),
            1 => (1u32..60).prop_map(|k| k as f64 / 4.0),
            1 => whole(hi),
            4 => pow10(lo, hi),
            1 => 140.0f64..200.0,
        ],
        prop_oneof![8 => scale(-6.0, 6.0), 1 => pow10(-120.0, 120.0)],
    )
        .prop_map(|(k, theta)| Spec::Gamma { k, theta })
        .boxed()
}
pub fn lognormal_spec() -> S<Spec> {
    (
        prop_oneof![4 => Just(0.0), 6 => -20.0f64..20.0, 2 => (-8i32..=8).prop_map(|v| v as f64 / 2.0), 1 => -300.0f64..300.0],
        prop_oneof![2 => select(vec![1.0, 0.5, 2.0, 0.25]), 3 => pow10(-6.0, 0.6)],
    )
        .prop_map(|(mu, sigma)| Spec::Lognormal { mu, sigma })
        .boxed()
}

pub fn discrete() -> S<Spec> {
    prop_oneof![1 => bernoulli_spec(), 5 => binomial_spec(6.0), 3 => categorical_spec()].boxed()
}

pub fn continuous() -> S<Spec> {
    Union::new(vec![
        beta_spec(),
        beta_spec(),
        pert_spec(),
        triangular_spec(),
        uniform_spec(),
        cauchy_spec(),
        gaussian_spec(),
        laplace_spec(),
        logistic_spec(),
        exponential_spec(),
        gamma_spec(),
        gamma_spec(),
        lognormal_spec(),
    ])
    .boxed()
}

pub fn any_spec() -> S<Spec> {
    prop_oneof![1 => discrete(), 2 => continuous()].boxed()
}

/// Parameters far outside everyday ranges, for totality checks.
pub fn extreme() -> S<Spec> {
    let wide = || prop_oneof![pow10(-100.0, 100.0), pow10(-12.0, 12.0), scale(-3.0, 3.0)].boxed();
    let off = || prop_oneof![Just(0.0), pow10(-100.0, 100.0), pow10(-100.0, 100.0).prop_map(|v| -v), offset(12.0)].boxed();
    let tiny_p = || {
        prop_oneof![
            pow10(-300.0, -1.0),
            pow10(-15.9, -1.0).prop_map(|v| 1.0 - v),
            Just(1.0 - f64::EPSILON / 2.0),
            Just(f64::MIN_POSITIVE),
            prob()
        ]
        .prop_filter("0 < p < 1", |p| *p > 0.0 && *p < 1.0)
        .boxed()
    };
    Union::new(vec![
        // The incomplete beta function takes as many steps as the shapes are
        // apart.
        (pow10(-3.0, 5.0), pow10(-4.0, 4.0), interval()).prop_map(|(alpha, r, (a, b))| (alpha, (alpha * r).max(1e-3).min(1e5), (a, b))).prop_map(|(alpha, beta, (a, b))| Spec::Beta { alpha, beta, a, b }).boxed(),
        (pow10(-5.0, 6.0), wide()).prop_map(|(k, theta)| Spec::Gamma { k, theta }).boxed(),
        (off(), wide()).prop_map(|(mu, sigma)| Spec::Gaussian { mu, sigma }).boxed(),
        (off(), wide()).prop_map(|(x0, gamma)| Spec::Cauchy { x0, gamma }).boxed(),
        (off(), wide()).prop_map(|(mu, b)| Spec::Laplace { mu, b }).boxed(),
        (off(), wide()).prop_map(|(mu, s)| Spec::Logistic { mu, s }).boxed(),
        wide().prop_map(|lambda| Spec::Exponential { lambda }).boxed(),
        (-100.0f64..100.0, pow10(-8.0, 0.9)).prop_map(|(mu, sigma)| Spec::Lognormal { mu, sigma }).boxed(),
        (prop_oneof![-1e3..1e3f64, -1e4..1e4f64], pow10(-8.0, 3.0)).prop_map(|(mu, sigma)| Spec::Lognormal { mu, sigma }).boxed(),
        (off(), wide()).prop_map(|(a, w)| Spec::Uniform { a, b: if a + w > a { a + w } else { a.abs() * 2.0 + 1.0 } }).boxed(),
        pert_spec(),
        triangular_spec(),
        tiny_p().prop_map(|p| Spec::Bernoulli { p }).boxed(),
        (trials(9.0), tiny_p(), any::<bool>())
            .prop_map(|(n, p, f)| if f { Spec::BinomialF { n, q: p } } else { Spec::Binomial { n, p } })
            .boxed(),
        binomial_spec(9.0),
        binomial_spec(4.0),
        categorical_spec(),
    ])
    .boxed()
}

/// Numbers of trials beyond 32 bits, also next to powers of two.
pub fn many() -> S<u64> {
    prop_oneof![
        3 => (9.0..18.9f64).prop_map(|e| 10f64.powf(e) as u64),
        2 => (30u32..63, -3i64..=3).prop_map(|(e, d)| ((1i64 << e) + d) as u64),
    ]
    .boxed()
}

/// Rare events in very many trials.
pub fn rare() -> S<Spec> {
    // Beyond 10^12 the prefactor of the incomplete beta function has no digits.
    let n = prop_oneof![
        3 => (8.0..12.0f64).prop_map(|e| 10f64.powf(e) as u64),
        2 => (30u32..39, -3i64..=3).prop_map(|(e, d)| ((1i64 << e) + d) as u64),
    ];
    (n, prop_oneof![-3.0..3.0f64, -12.0..0.0f64], any::<bool>())
        .prop_map(|(n, e, f)| {
            let p = 10f64.powf(e) / n as f64;
            if f { Spec::BinomialF { n, q: p } } else { Spec::Binomial { n, p } }
        })
        .boxed()
}

/// Many trials, any probability.
pub fn large() -> S<Spec> {
    let n = prop_oneof![
        3 => (6.0..15.0f64).prop_map(|e| 10f64.powf(e) as u64),
        2 => (20u32..50, -3i64..=3).prop_map(|(e, d)| ((1i64 << e) + d) as u64),
    ];
    (n, prop_oneof![3 => prob(), 1 => pow10(-12.0, -4.0)], any::<bool>())
        .prop_map(|(n, p, f)| if f { Spec::BinomialF { n, q: p } } else { Spec::Binomial { n, p } })
        .boxed()
}

/// Very many trials, any probability.
pub fn huge() -> S<Spec> {
    let p = prop_oneof![3 => prob(), 1 => Just(1.0 - f64::EPSILON / 2.0), 1 => Just(0.5), 1 => pow10(-300.0, -1.0)];
    prop_oneof![
        2 => (many(), p, any::<bool>()).prop_map(|(n, p, f)| if f { Spec::BinomialF { n, q: p } } else { Spec::Binomial { n, p } }),
        1 => rare(),
    ]
    .boxed()
}

pub fn next_up(x: f64) -> f64 {
    if x.is_nan() || x == f64::INFINITY {
        return x;
    }
    if x == 0.0 {
        return f64::from_bits(1);
    }
    let b = x.to_bits();
    f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}

pub fn next_down(x: f64) -> f64 {
    -next_up(-x)
}

/// Natural coordinate to a point: `z` is in spreads around the centre on the
/// distribution's own scale.
pub fn natural(spec: &Spec, z: f64) -> f64 {
    match spec {
        Spec::Lognormal { mu, sigma } => (mu + sigma * z).exp(),
        Spec::Exponential { lambda } => z.abs() * 1.5 / lambda,
        Spec::Gamma { k, theta } if *k < 4.0 => {
            // Log-scale below the mean, linear above.
            if z < 0.0 {
                k * theta * (2.0 * z / k.min(1.0)).exp()
            } else {
                k * theta + k.sqrt().max(0.5) * theta * z
            }
        }
        Spec::Beta { alpha, beta, a, b } if *alpha < 2.0 || *beta < 2.0 => {
            let t = 1.0 / (1.0 + (-1.5 * z).exp());
            if z < 0.0 {
                a + (b - a) * t
            } else {
                b - (b - a) / (1.0 + (1.5 * z).exp())
            }
        }
        Spec::Uniform { .. } | Spec::Pert { .. } | Spec::Triangular { .. } => {
            let (a, b) = spec.support();
            a + (b - a) * (0.5 + z / 6.0)
        }
        _ => {
            let (c, s) = spec.aim();
            c + s * z
        }
    }
}

/// The finite places where a density or CDF formula may change.
pub fn landmarks(spec: &Spec) -> Vec<f64> {
    match spec {
        Spec::Triangular { a, b, c } => vec![*a, *b, *c, a + 0.5 * (b - a)],
        Spec::Pert { a, b, c } => vec![*a, *b, *c, (a + 4.0 * b + c) / 6.0],
        Spec::Uniform { a, b } => vec![*a, *b, a + 0.5 * (b - a)],
        Spec::Beta { alpha, beta, a, b } => {
            let mut v = vec![*a, *b, a + 0.5 * (b - a), a + (b - a) * (alpha / (alpha + beta))];
            if *alpha > 1.0 && *beta > 1.0 {
                v.push(a + (b - a) * ((alpha - 1.0) / (alpha + beta - 2.0)));
                v.push(a + (b - a) * ((alpha - 1.0 / 3.0) / (alpha + beta - 2.0 / 3.0)));
            }
            v
        }
        Spec::Cauchy { x0: m, .. }
        | Spec::Gaussian { mu: m, .. }
        | Spec::Laplace { mu: m, .. }
        | Spec::Logistic { mu: m, .. } => vec![*m],
        Spec::Gamma { k, theta } => {
            let mut v = vec![0.0, k * theta];
            if *k > 1.0 {
                v.push((k - 1.0) * theta);
                v.push((k - 1.0 / 3.0) * theta);
                v.push((k + 1.0) * theta);
            }
            v
        }
        Spec::Exponential { lambda } => vec![0.0, 1.0 / lambda, std::f64::consts::LN_2 / lambda],
        Spec::Lognormal { mu, sigma } => vec![0.0, mu.exp(), (mu - sigma * sigma).exp(), (mu + 0.5 * sigma * sigma).exp()],
        _ => {
            let (a, b) = spec.support();
            vec![a, b]
        }
    }
}

pub const POINT_KINDS: u32 = 20;

/// A point to evaluate at: `kind` in 0..POINT_KINDS, `u` in [0, 1).
pub fn point(spec: &Spec, kind: u32, u: f64) -> f64 {
    let (a, b) = spec.support();
    let (c, s) = spec.aim();
    let s = if s > 0.0 && s.is_finite() { s } else { 1.0 };
    if spec.is_discrete() {
        let k = match kind {
            0..=6 => (c + s * 8.0 * (u - 0.5)).round(),
            7 => (c + s * 60.0 * (u - 0.5)).round(),
            8 => (b * u).round(),
            9 => (u * 4.0).floor(),
            10 => b - (u * 4.0).floor(),
            11 => c.floor() + (u * 3.0).floor() - 1.0,
            12 => (c + s * 8.0 * (u - 0.5)).round() + 0.5,
            13 => next_down((c + s * 8.0 * (u - 0.5)).round()),
            14 => next_up((c + s * 8.0 * (u - 0.5)).round()),
            15 => c + s * 6.0 * (u - 0.5),
            16 => b + (u * 5.0).floor() - 2.0,
            17 => [-1.0, -0.5, -5e-324, -0.0, 0.0, next_down(1.0), 1.0][(u * 7.0) as usize],
            18 => [f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300, 1e19, b + 1.0][(u * 6.0) as usize],
            _ => (b / 2.0).floor() + (u * 3.0).floor() - 1.0,
        };
        // Mostly stay inside the support.
        return if kind <= 11 { k.max(a).min(b) } else { k };
    }
    let w = if (b - a).is_finite() { b - a } else { s };
    let marks = landmarks(spec);
    let m = marks[((u * marks.len() as f64) as usize).min(marks.len() - 1)];
    let e = (u * 7919.0).fract();
    match kind {
        0..=8 => natural(spec, 6.0 * (u - 0.5)),
        9 | 10 => natural(spec, 16.0 * (u - 0.5)),
        11 => natural(spec, (if e < 0.5 { -1.0 } else { 1.0 }) * 10f64.powf(u * 3.0)),
        12 => m,
        13 => next_up(m),
        14 => next_down(m),
        15 => {
            let d = w * 10f64.powf(-14.0 * e);
            if m == a {
                a + d
            } else if m == b {
                b - d
            } else if (u * 104729.0).fract() < 0.5 {
                m + d
            } else {
                m - d
            }
        }
        16 => {
            let d = w * 10f64.powf(6.0 * (e - 0.5));
            if a.is_finite() && (u < 0.5 || !b.is_finite()) {
                a - d
            } else if b.is_finite() {
                b + d
            } else {
                c + d
            }
        }
        17 => [f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1e300, -1e300][(u * 6.0) as usize],
        18 => (c + s * 6.0 * (u - 0.5)).round(),
        _ => {
            // Into both far tails on a log scale.
            let d = s * 10f64.powf(3.0 * e);
            if u < 0.5 {
                c - d
            } else {
                c + d
            }
        }
    }
}

/// A case with `n` points aimed at the generated distribution.
pub fn with_points(spec: S<Spec>, n: usize) -> S<Case> {
    (spec, prop::collection::vec((0..POINT_KINDS, 0.0f64..1.0), n))
        .prop_map(|(spec, g)| {
            let xs = g.iter().map(|&(k, u)| point(&spec, k, u)).collect();
            Case { spec, xs, ns: vec![] }
        })
        .boxed()
}

/// A case with `n` probabilities.
pub fn with_quantiles(spec: S<Spec>, n: usize) -> S<Case> {
    (spec, prop::collection::vec(quantile_arg(), n))
        .prop_map(|(spec, xs)| Case { spec, xs, ns: vec![] })
        .boxed()
}

/// Just the distribution.
pub fn bare(spec: S<Spec>) -> S<Case> {
    spec.prop_map(|spec| Case { spec, xs: vec![], ns: vec![] }).boxed()
}

/// A case with `n` arbitrary words.
pub fn with_words(spec: S<Spec>, n: usize) -> S<Case> {
    (spec, prop::collection::vec(any::<u64>(), n))
        .prop_map(|(spec, ns)| Case { spec, xs: vec![], ns })
        .boxed()
}

/// Whether a distribution's parameters are inside the documented domain.
pub fn valid(spec: &Spec) -> bool {
    let fin = spec.params().iter().all(|v| v.is_finite());
    fin && match spec {
        Spec::Bernoulli { p } | Spec::Binomial { p, .. } => *p > 0.0 && *p < 1.0,
        Spec::BernoulliF { q } | Spec::BinomialF { q, .. } => *q > 0.0 && *q < 1.0,
        Spec::Beta { alpha, beta, a, b } => *alpha > 0.0 && *beta > 0.0 && a < b,
        Spec::Categorical { p } => {
            !p.is_empty()
                && p.iter().all(|v| (0.0..=1.0).contains(v))
                && (p.iter().sum::<f64>() - 1.0).abs() < 5e-13
        }
        Spec::Cauchy { gamma: s, .. }
        | Spec::Gaussian { sigma: s, .. }
        | Spec::Laplace { b: s, .. }
        | Spec::Logistic { s, .. }
        | Spec::Lognormal { sigma: s, .. }
        | Spec::Exponential { lambda: s } => *s > 0.0,
        Spec::Gamma { k, theta } => *k > 0.0 && *theta > 0.0,
        Spec::Pert { a, b, c } => a < b && b < c,
        Spec::Triangular { a, b, c } => a < b && a <= c && c <= b,
        Spec::Uniform { a, b } => a < b,
    }
}

/// An interval that is very narrow or wide compared with where it lies.
pub fn far_interval() -> S<(f64, f64)> {
    prop_oneof![
        2 => interval(),
        3 => (pow10(-6.0, 6.0), any::<bool>(), -11.0..9.0f64).prop_map(|(a, minus, e)| {
            let a = if minus { -a } else { a };
            (a, a + a.abs() * 10f64.powf(e))
        }),
        1 => (pow10(-6.0, 6.0), -11.0..9.0f64).prop_map(|(b, e)| (b - b * 10f64.powf(e), b)),
    ]
    .prop_filter("a < b", |(a, b)| a < b)
    .boxed()
}

/// The law of k X.
pub fn scaled(spec: &Spec, k: f64) -> Spec {
    match *spec {
        Spec::Beta { alpha, beta, a, b } => Spec::Beta { alpha, beta, a: k * a, b: k * b },
        Spec::Cauchy { x0, gamma } => Spec::Cauchy { x0: k * x0, gamma: k * gamma },
        Spec::Gaussian { mu, sigma } => Spec::Gaussian { mu: k * mu, sigma: k * sigma },
        Spec::Laplace { mu, b } => Spec::Laplace { mu: k * mu, b: k * b },
        Spec::Logistic { mu, s } => Spec::Logistic { mu: k * mu, s: k * s },
        Spec::Pert { a, b, c } => Spec::Pert { a: k * a, b: k * b, c: k * c },
        Spec::Triangular { a, b, c } => Spec::Triangular { a: k * a, b: k * b, c: k * c },
        Spec::Uniform { a, b } => Spec::Uniform { a: k * a, b: k * b },
        Spec::Exponential { lambda } => Spec::Exponential { lambda: lambda / k },
        Spec::Gamma { k: shape, theta } => Spec::Gamma { k: shape, theta: k * theta },
        ref s => s.clone(),
    }
}

/// Continuous laws of a size whose square is hardly representable or not at
/// all.
pub fn remote() -> S<Spec> {
    (continuous(), 330i32..830, any::<bool>())
        .prop_map(|(spec, e, minus)| scaled(&spec, 2f64.powi(if minus { -e } else { e })))
        .prop_filter("representable", |s| {
            valid(s) && s.params().iter().all(|v| *v == 0.0 || v.abs() > 1e-260 && v.abs() < 1e260)
        })
        .boxed()
}

/// Continuous laws with parameters of very different sizes.
pub fn wild() -> S<Spec> {
    prop_oneof![6 => apart(), 1 => remote()].boxed()
}

fn apart() -> S<Spec> {
    // Anything from far below to far above, with plain numbers in between.
    let shape = || prop_oneof![2 => pow10(-5.0, -1.0), 2 => pow10(2.0, 6.0), 2 => pow10(-2.0, 2.0), 1 => select(vec![0.5, 1.0, 2.0, 3.0])].boxed();
    let ends = || prop_oneof![1 => Just(0.0), 2 => pow10(-16.0, -6.0), 2 => pow10(-6.0, 0.0), 1 => Just(0.5)].boxed();
    let apart = || (pow10(-6.0, 6.0), -13.0..13.0f64, any::<bool>()).prop_map(|(s, e, minus)| (if minus { -1.0 } else { 1.0 } * s * 10f64.powf(e), s)).boxed();
    let three = move || {
        (far_interval(), ends(), any::<bool>())
            .prop_map(|((a, b), t, left)| (a, if left { a + (b - a) * t } else { b - (b - a) * t }.max(a).min(b), b))
            .boxed()
    };
    Union::new(vec![
        (shape(), shape(), far_interval()).prop_map(|(alpha, beta, (a, b))| Spec::Beta { alpha, beta, a, b }).boxed(),
        (shape(), far_interval()).prop_map(|(s, (a, b))| Spec::Beta { alpha: s, beta: s, a, b }).boxed(),
        (shape(), pow10(-6.0, 6.0)).prop_map(|(k, theta)| Spec::Gamma { k, theta }).boxed(),
        far_interval().prop_map(|(a, b)| Spec::Uniform { a, b }).boxed(),
        three().prop_map(|(a, c, b)| Spec::Triangular { a, b, c }).boxed(),
        three()
            .prop_filter("a < b < c", |(a, b, c)| {
                // The shapes come out of the differences.
                let least = (1e-13 * (c - a)).max(100.0 * f64::EPSILON * a.abs().max(c.abs()));
                b - a > least && c - b > least
            })
            .prop_map(|(a, b, c)| Spec::Pert { a, b, c }).boxed(),
        apart().prop_map(|(mu, sigma)| Spec::Gaussian { mu, sigma }).boxed(),
        apart().prop_map(|(x0, gamma)| Spec::Cauchy { x0, gamma }).boxed(),
        apart().prop_map(|(mu, b)| Spec::Laplace { mu, b }).boxed(),
        apart().prop_map(|(mu, s)| Spec::Logistic { mu, s }).boxed(),
        (prop_oneof![pow10(-12.0, 2.3), pow10(-12.0, 2.3).prop_map(|v| -v)], prop_oneof![pow10(-10.0, 0.0), pow10(0.0, 0.9)])
            .prop_map(|(mu, sigma)| Spec::Lognormal { mu, sigma })
            .boxed(),
    ])
    .boxed()
}

/// Values next to the least and the greatest numbers.
pub fn brink() -> S<Spec> {
    (680.0f64..745.0, any::<bool>(), pow10(-2.0, 1.0))
        .prop_map(|(m, minus, sigma)| if minus { Spec::Lognormal { mu: -m, sigma } } else { Spec::Lognormal { mu: m - 40.0, sigma: sigma.min(4.0) } })
        .boxed()
}

/// The same with shapes for which quantiles can be had.
pub fn wild_plain() -> S<Spec> {
    wild()
        .prop_map(|s| match s {
            Spec::Beta { alpha, beta, a, b } => Spec::Beta { alpha: alpha.clamp(0.03, 1e3), beta: beta.clamp(0.03, 1e3), a, b },
            Spec::Gamma { k, theta } => Spec::Gamma { k: k.clamp(0.03, 1e4), theta },
            s => s,
        })
        .boxed()
}

/// Very small, very large, or very different shapes.
pub fn shapes() -> S<Spec> {
    // The incomplete beta function takes as many steps as the shapes are apart.
    prop_oneof![
        (pow10(-3.0, 5.0), pow10(-3.0, 3.0)).prop_map(|(alpha, r)| Spec::Beta { alpha, beta: (alpha * r).clamp(1e-3, 1e5), a: 0.0, b: 1.0 }),
        (pow10(-12.0, -2.0), pow10(-3.0, 3.0)).prop_map(|(alpha, r)| Spec::Beta { alpha, beta: alpha * r, a: 0.0, b: 1.0 }),
        prop_oneof![3 => pow10(-5.0, 6.0), 1 => pow10(-15.0, 7.7), 1 => pow10(7.0, 8.7)].prop_map(|k| Spec::Gamma { k, theta: 1.0 }),
    ]
    .boxed()
}

/// Shapes of any size, for what does not take steps.
pub fn vast() -> S<Spec> {
    let s = || prop_oneof![2 => pow10(-12.0, 12.0), 1 => pow10(-30.0, 30.0), 1 => pow10(5.0, 9.0), 1 => pow10(-9.0, -4.0), 1 => select(vec![0.5, 1.0, 2.0, 3.0])].boxed();
    prop_oneof![
        2 => (s(), s(), interval()).prop_map(|(alpha, beta, (a, b))| Spec::Beta { alpha, beta, a, b }),
        2 => (s(), pow10(-1.5, 1.5), interval()).prop_map(|(alpha, r, (a, b))| Spec::Beta { alpha, beta: alpha * r, a, b }),
        1 => (s(), interval()).prop_map(|(s, (a, b))| Spec::Beta { alpha: s, beta: s, a, b }),
        3 => (s(), scale(-6.0, 6.0)).prop_map(|(k, theta)| Spec::Gamma { k, theta }),
    ]
    .boxed()
}

/// Shapes with which a density has digits.
pub fn digits(s: &Spec) -> bool {
    !matches!(s, Spec::Beta { alpha, beta, .. } if alpha.max(*beta) > 1e9) && !matches!(s, Spec::Gamma { k, .. } if *k > 1e9)
}

/// The incomplete beta function takes as many steps as the shapes are apart.
pub fn reachable(s: &Spec) -> bool {
    !matches!(s, Spec::Beta { alpha, beta, .. } if alpha.min(*beta) < alpha.max(*beta) * 1e-6 || alpha.max(*beta) > 1e5)
}

/// Categorical laws of up to a few thousand categories, seldom more.
pub fn long() -> S<Spec> {
    (prop_oneof![40 => 150usize..4000, 1 => 4000usize..70000], any::<u64>(), 0u8..8)
        .prop_map(|(k, seed, kind)| {
            let mut state = seed | 1;
            let mut unit = move || {
                state ^= state << 13;
                state ^= state >> 7;
                state ^= state << 17;
                (state >> 11) as f64 / (1u64 << 53) as f64
            };
            let w = (0..k)
                .map(|i| match kind {
                    0 => unit(),
                    1 => 1e-9f64.powf(unit()),
                    2 => if unit() < 0.9 { 0.0 } else { unit() },
                    3 => 1.0,
                    4 => 0.995f64.powi(i as i32),
                    // All but certain, somewhere.
                    5 => if i + 1 == k { 1.0 } else if unit() < 0.02 { 1e-12 } else { 0.0 },
                    6 => if i == (seed % k as u64) as usize { 1.0 } else if unit() < 0.02 { 1e-9 * unit() } else { 0.0 },
                    _ => if unit() < 0.01 { 1e6 } else { unit() },
                })
                .collect();
            normalise(w)
        })
        .boxed()
}

/// Wild laws every method of which returns in time.
pub fn brisk() -> S<Spec> {
    wild()
        .prop_map(|s| match s {
            Spec::Beta { alpha, beta, a, b } => {
                let alpha = alpha.clamp(1e-3, 1e5);
                Spec::Beta { alpha, beta: beta.clamp(alpha * 1e-4, alpha * 1e4).clamp(1e-3, 1e5), a, b }
            }
            s => s,
        })
        .boxed()
}
