//! Distribution specifications: what is generated, printed, replayed, built.

use probability::distribution as pd;
use probability::prelude::*;
use probability::source::Source;

#[derive(Clone, Debug, PartialEq)]
pub enum Spec {
    Bernoulli { p: f64 },
    BernoulliF { q: f64 },
    Beta { alpha: f64, beta: f64, a: f64, b: f64 },
    Binomial { n: u64, p: f64 },
    BinomialF { n: u64, q: f64 },
    Categorical { p: Vec<f64> },
    Cauchy { x0: f64, gamma: f64 },
    Exponential { lambda: f64 },
    Gamma { k: f64, theta: f64 },
    Gaussian { mu: f64, sigma: f64 },
    Laplace { mu: f64, b: f64 },
    Logistic { mu: f64, s: f64 },
    Lognormal { mu: f64, sigma: f64 },
    Pert { a: f64, b: f64, c: f64 },
    Triangular { a: f64, b: f64, c: f64 },
    Uniform { a: f64, b: f64 },
}

#[derive(Clone, Debug)]
pub enum Dist {
    Bernoulli(pd::Bernoulli),
    Beta(pd::Beta),
    Binomial(pd::Binomial),
    Categorical(pd::Categorical),
    Cauchy(pd::Cauchy),
    Exponential(pd::Exponential),
    Gamma(pd::Gamma),
    Gaussian(pd::Gaussian),
    Laplace(pd::Laplace),
    Logistic(pd::Logistic),
    Lognormal(pd::Lognormal),
    Pert(pd::Pert),
    Triangular(pd::Triangular),
    Uniform(pd::Uniform),
}

pub const NAMES: [&str; 16] = [
    "bernoulli",
    "bernoulli_q",
    "beta",
    "binomial",
    "binomial_q",
    "categorical",
    "cauchy",
    "exponential",
    "gamma",
    "gaussian",
    "laplace",
    "logistic",
    "lognormal",
    "pert",
    "triangular",
    "uniform",
];

impl Spec {
    pub fn name(&self) -> &'static str {
        NAMES[self.tag()]
    }

    pub fn tag(&self) -> usize {
        match self {
            Spec::Bernoulli { .. } => 0,
            Spec::BernoulliF { .. } => 1,
            Spec::Beta { .. } => 2,
            Spec::Binomial { .. } => 3,
            Spec::BinomialF { .. } => 4,
            Spec::Categorical { .. } => 5,
            Spec::Cauchy { .. } => 6,
            Spec::Exponential { .. } => 7,
            Spec::Gamma { .. } => 8,
            Spec::Gaussian { .. } => 9,
            Spec::Laplace { .. } => 10,
            Spec::Logistic { .. } => 11,
            Spec::Lognormal { .. } => 12,
            Spec::Pert { .. } => 13,
            Spec::Triangular { .. } => 14,
            Spec::Uniform { .. } => 15,
        }
    }

    pub fn params(&self) -> Vec<f64> {
        match self {
            Spec::Bernoulli { p } => vec![*p],
            Spec::BernoulliF { q } => vec![*q],
            Spec::Beta { alpha, beta, a, b } => vec![*alpha, *beta, *a, *b],
            Spec::Binomial { n, p } => vec![*n as f64, *p],
            Spec::BinomialF { n, q } => vec![*n as f64, *q],
            Spec::Categorical { p } => p.clone(),
            Spec::Cauchy { x0, gamma } => vec![*x0, *gamma],
            Spec::Exponential { lambda } => vec![*lambda],
            Spec::Gamma { k, theta } => vec![*k, *theta],
            Spec::Gaussian { mu, sigma } => vec![*mu, *sigma],
            Spec::Laplace { mu, b } => vec![*mu, *b],
            Spec::Logistic { mu, s } => vec![*mu, *s],
            Spec::Lognormal { mu, sigma } => vec![*mu, *sigma],
            Spec::Pert { a, b, c } => vec![*a, *b, *c],
            Spec::Triangular { a, b, c } => vec![*a, *b, *c],
            Spec::Uniform { a, b } => vec![*a, *b],
        }
    }

    pub fn from_params(name: &str, v: &[f64]) -> Option<Spec> {
        Some(match name {
            "bernoulli" => Spec::Bernoulli { p: v[0] },
            "bernoulli_q" => Spec::BernoulliF { q: v[0] },
            "beta" => Spec::Beta { alpha: v[0], beta: v[1], a: v[2], b: v[3] },
            "binomial" => Spec::Binomial { n: v[0] as u64, p: v[1] },
            "binomial_q" => Spec::BinomialF { n: v[0] as u64, q: v[1] },
            "categorical" => Spec::Categorical { p: v.to_vec() },
            "cauchy" => Spec::Cauchy { x0: v[0], gamma: v[1] },
            "exponential" => Spec::Exponential { lambda: v[0] },
            "gamma" => Spec::Gamma { k: v[0], theta: v[1] },
            "gaussian" => Spec::Gaussian { mu: v[0], sigma: v[1] },
            "laplace" => Spec::Laplace { mu: v[0], b: v[1] },
            "logistic" => Spec::Logistic { mu: v[0], s: v[1] },
            "lognormal" => Spec::Lognormal { mu: v[0], sigma: v[1] },
            "pert" => Spec::Pert { a: v[0], b: v[1], c: v[2] },
            "triangular" => Spec::Triangular { a: v[0], b: v[1], c: v[2] },
            "uniform" => Spec::Uniform { a: v[0], b: v[1] },
            _ => return None,
        })
    }

    /// One for a categorical law, zero for any other.
    pub fn is_categorical(&self) -> f64 {
        (self.tag() == 5) as u8 as f64
    }

    /// Whether the probabilities are multiples of 2^-12, so that both p and q
    /// and products with small counts are exact.
    pub fn is_tidy(&self) -> bool {
        match self {
            Spec::Bernoulli { p } | Spec::BernoulliF { q: p } => (p * 4096.0).fract() == 0.0,
            Spec::Binomial { n, p } | Spec::BinomialF { n, q: p } => (p * 4096.0).fract() == 0.0 && *n < 1 << 40,
            _ => true,
        }
    }

    pub fn is_discrete(&self) -> bool {
        self.tag() <= 1 || matches!(self.tag(), 3 | 4 | 5)
    }

    pub fn build(&self) -> Dist {
        match self {
            Spec::Bernoulli { p } => Dist::Bernoulli(pd::Bernoulli::new(*p)),
            Spec::BernoulliF { q } => Dist::Bernoulli(pd::Bernoulli::with_failure(*q)),
            Spec::Beta { alpha, beta, a, b } => Dist::Beta(pd::Beta::new(*alpha, *beta, *a, *b)),
            Spec::Binomial { n, p } => Dist::Binomial(pd::Binomial::new(*n as usize, *p)),
            Spec::BinomialF { n, q } => Dist::Binomial(pd::Binomial::with_failure(*n as usize, *q)),
            Spec::Categorical { p } => Dist::Categorical(pd::Categorical::new(p)),
            Spec::Cauchy { x0, gamma } => Dist::Cauchy(pd::Cauchy::new(*x0, *gamma)),
            Spec::Exponential { lambda } => Dist::Exponential(pd::Exponential::new(*lambda)),
            Spec::Gamma { k, theta } => Dist::Gamma(pd::Gamma::new(*k, *theta)),
            Spec::Gaussian { mu, sigma } => Dist::Gaussian(pd::Gaussian::new(*mu, *sigma)),
            Spec::Laplace { mu, b } => Dist::Laplace(pd::Laplace::new(*mu, *b)),
            Spec::Logistic { mu, s } => Dist::Logistic(pd::Logistic::new(*mu, *s)),
            Spec::Lognormal { mu, sigma } => Dist::Lognormal(pd::Lognormal::new(*mu, *sigma)),
            Spec::Pert { a, b, c } => Dist::Pert(pd::Pert::new(*a, *b, *c)),
            Spec::Triangular { a, b, c } => Dist::Triangular(pd::Triangular::new(*a, *b, *c)),
            Spec::Uniform { a, b } => Dist::Uniform(pd::Uniform::new(*a, *b)),
        }
    }

    /// The closed support.
    pub fn support(&self) -> (f64, f64) {
        use std::f64::{INFINITY as I, NEG_INFINITY as N};
        match self {
            Spec::Bernoulli { .. } | Spec::BernoulliF { .. } => (0.0, 1.0),
            Spec::Beta { a, b, .. } => (*a, *b),
            Spec::Binomial { n, .. } | Spec::BinomialF { n, .. } => (0.0, *n as f64),
            Spec::Categorical { p } => (0.0, p.len() as f64 - 1.0),
            Spec::Cauchy { .. } | Spec::Gaussian { .. } | Spec::Laplace { .. } | Spec::Logistic { .. } => (N, I),
            Spec::Exponential { .. } | Spec::Gamma { .. } | Spec::Lognormal { .. } => (0.0, I),
            Spec::Pert { a, c, .. } => (*a, *c),
            Spec::Triangular { a, b, .. } => (*a, *b),
            Spec::Uniform { a, b } => (*a, *b),
        }
    }

    /// A rough centre and spread, used only to aim generators.
    pub fn aim(&self) -> (f64, f64) {
        match self {
            Spec::Bernoulli { .. } | Spec::BernoulliF { .. } => (0.5, 0.5),
            Spec::Beta { alpha, beta, a, b } => {
                let s = alpha + beta;
                (a + (b - a) * alpha / s, (b - a) * (alpha * beta / (s * s * (s + 1.0))).sqrt())
            }
            Spec::Binomial { n, p } => (*n as f64 * p, (*n as f64 * p * (1.0 - p)).sqrt()),
            Spec::BinomialF { n, q } => (*n as f64 * (1.0 - q), (*n as f64 * q * (1.0 - q)).sqrt()),
            Spec::Categorical { p } => ((p.len() as f64 - 1.0) / 2.0, p.len() as f64 / 4.0),
            Spec::Cauchy { x0, gamma } => (*x0, *gamma),
            Spec::Exponential { lambda } => (1.0 / lambda, 1.0 / lambda),
            Spec::Gamma { k, theta } => (k * theta, k.sqrt() * theta),
            Spec::Gaussian { mu, sigma } => (*mu, *sigma),
            Spec::Laplace { mu, b } => (*mu, 1.4 * b),
            Spec::Logistic { mu, s } => (*mu, 1.8 * s),
            Spec::Lognormal { mu, sigma } => (mu.exp(), mu.exp() * sigma.min(1.0)),
            Spec::Pert { a, b, c } => ((a + 4.0 * b + c) / 6.0, (c - a) / 5.0),
            Spec::Triangular { a, b, c } => ((a + b + c) / 3.0, (b - a) / 5.0),
            Spec::Uniform { a, b } => ((a + b) / 2.0, (b - a) / 3.5),
        }
    }

    /// How strongly a bounded distribution's parameters cancel: the size of
    /// its endpoints over its width.
    pub fn kappa(&self) -> f64 {
        match self {
            Spec::Beta { .. } | Spec::Pert { .. } | Spec::Triangular { .. } | Spec::Uniform { .. } => {
                let (a, b) = self.support();
                1.0 + a.abs().max(b.abs()) / (b - a)
            }
            _ => 1.0,
        }
    }
}

macro_rules! every {
    ($self:expr, $d:ident => $e:expr) => {
        match $self {
            Dist::Bernoulli($d) => $e,
            Dist::Beta($d) => $e,
            Dist::Binomial($d) => $e,
            Dist::Categorical($d) => $e,
            Dist::Cauchy($d) => $e,
            Dist::Exponential($d) => $e,
            Dist::Gamma($d) => $e,
            Dist::Gaussian($d) => $e,
            Dist::Laplace($d) => $e,
            Dist::Logistic($d) => $e,
            Dist::Lognormal($d) => $e,
            Dist::Pert($d) => $e,
            Dist::Triangular($d) => $e,
            Dist::Uniform($d) => $e,
        }
    };
}

macro_rules! but_cauchy {
    ($self:expr, $d:ident => $e:expr) => {
        Some(match $self {
            Dist::Bernoulli($d) => $e,
            Dist::Beta($d) => $e,
            Dist::Binomial($d) => $e,
            Dist::Categorical($d) => $e,
            Dist::Cauchy(_) => return None,
            Dist::Exponential($d) => $e,
            Dist::Gamma($d) => $e,
            Dist::Gaussian($d) => $e,
            Dist::Laplace($d) => $e,
            Dist::Logistic($d) => $e,
            Dist::Lognormal($d) => $e,
            Dist::Pert($d) => $e,
            Dist::Triangular($d) => $e,
            Dist::Uniform($d) => $e,
        })
    };
}

impl Dist {
    pub fn cdf(&self, x: f64) -> f64 {
        every!(self, d => d.distribution(x))
    }
    pub fn density(&self, x: f64) -> Option<f64> {
        Some(match self {
            Dist::Bernoulli(_) | Dist::Binomial(_) | Dist::Categorical(_) => return None,
            Dist::Beta(d) => d.density(x),
            Dist::Cauchy(d) => d.density(x),
            Dist::Exponential(d) => d.density(x),
            Dist::Gamma(d) => d.density(x),
            Dist::Gaussian(d) => d.density(x),
            Dist::Laplace(d) => d.density(x),
            Dist::Logistic(d) => d.density(x),
            Dist::Lognormal(d) => d.density(x),
            Dist::Pert(d) => d.density(x),
            Dist::Triangular(d) => d.density(x),
            Dist::Uniform(d) => d.density(x),
        })
    }
    pub fn mass(&self, x: u64) -> Option<f64> {
        Some(match self {
            Dist::Bernoulli(d) => d.mass(if x > 255 { 255 } else { x as u8 }),
            Dist::Binomial(d) => d.mass(x as usize),
            Dist::Categorical(d) => d.mass(x as usize),
            _ => return None,
        })
    }
    pub fn inverse(&self, p: f64) -> Option<f64> {
        Some(match self {
            Dist::Bernoulli(d) => d.inverse(p) as f64,
            Dist::Beta(d) => d.inverse(p),
            Dist::Binomial(d) => d.inverse(p) as f64,
            Dist::Categorical(d) => d.inverse(p) as f64,
            Dist::Cauchy(d) => d.inverse(p),
            Dist::Exponential(d) => d.inverse(p),
            Dist::Gamma(_) => return None,
            Dist::Gaussian(d) => d.inverse(p),
            Dist::Laplace(d) => d.inverse(p),
            Dist::Logistic(d) => d.inverse(p),
            Dist::Lognormal(d) => d.inverse(p),
            Dist::Pert(d) => d.inverse(p),
            Dist::Triangular(d) => d.inverse(p),
            Dist::Uniform(d) => d.inverse(p),
        })
    }
    pub fn sample<S: Source>(&self, s: &mut S) -> f64 {
        match self {
            Dist::Bernoulli(d) => d.sample(s) as f64,
            Dist::Beta(d) => d.sample(s),
            Dist::Binomial(d) => d.sample(s) as f64,
            Dist::Categorical(d) => d.sample(s) as f64,
            Dist::Cauchy(d) => d.sample(s),
            Dist::Exponential(d) => d.sample(s),
            Dist::Gamma(d) => d.sample(s),
            Dist::Gaussian(d) => d.sample(s),
            Dist::Laplace(d) => d.sample(s),
            Dist::Logistic(d) => d.sample(s),
            Dist::Lognormal(d) => d.sample(s),
            Dist::Pert(d) => d.sample(s),
            Dist::Triangular(d) => d.sample(s),
            Dist::Uniform(d) => d.sample(s),
        }
    }
    /// `take` values through the `Independent` sampler.
    pub fn independent<S: Source>(&self, s: &mut S, take: usize) -> Vec<f64> {
        macro_rules! go { ($d:expr) => { Independent($d, s).take(take).map(|x| x as f64).collect() } }
        every!(self, d => go!(d))
    }
    /// Values through one `Independent` sampler and the iterator methods
    /// chosen by `ops`; with each, its place in the sequence of all samples.
    /// The second result is the number of samples taken in all.
    pub fn adapted<S: Source>(&self, s: &mut S, ops: &[(u8, usize)]) -> Result<(Vec<(usize, f64)>, usize), String> {
        macro_rules! go {
            ($d:expr) => {{
                let mut it = Independent($d, s);
                let (mut out, mut at) = (vec![], 0usize);
                for &(op, k) in ops {
                    match op {
                        0 => {
                            out.push((at, it.next().map(|x| x as f64)));
                            at += 1;
                        }
                        1 => {
                            out.push((at + k, it.nth(k).map(|x| x as f64)));
                            at += k + 1;
                        }
                        2 => {
                            out.push((at + k, it.by_ref().skip(k).next().map(|x| x as f64)));
                            at += k + 1;
                        }
                        3 => {
                            for x in it.by_ref().take(k) {
                                out.push((at, Some(x as f64)));
                                at += 1;
                            }
                        }
                        4 => {
                            for x in it.by_ref().step_by(k + 1).take(2) {
                                out.push((at, Some(x as f64)));
                                at += k + 1;
                            }
                            at -= k;
                        }
                        5 => {
                            out.push((at + k, it.by_ref().take(k + 1).last().map(|x| x as f64)));
                            at += k + 1;
                        }
                        6 => {
                            let n = it.by_ref().take(k).count();
                            if n != k {
                                return Err(format!("end: {} samples where {} were asked for", n, k));
                            }
                            at += k;
                        }
                        7 => {
                            let mut left = k;
                            let x = it.by_ref().find(|_| {
                                left = left.wrapping_sub(1);
                                left == usize::MAX
                            });
                            out.push((at + k, x.map(|x| x as f64)));
                            at += k + 1;
                        }
                        8 => {
                            for (i, x) in (0..k).zip(it.by_ref()) {
                                out.push((at + i, Some(x as f64)));
                            }
                            at += k;
                        }
                        9 => {
                            it.by_ref().take(k).for_each(|x| {
                                out.push((at, Some(x as f64)));
                                at += 1;
                            });
                        }
                        10 => {
                            let v: Vec<_> = it.by_ref().skip(k).step_by(2).take(2).collect();
                            if v.len() != 2 {
                                return Err("end: no sample".to_string());
                            }
                            out.push((at + k, Some(v[0] as f64)));
                            out.push((at + k + 2, Some(v[1] as f64)));
                            at += k + 3;
                        }
                        _ => {
                            let (_, most) = it.size_hint();
                            if most.is_some() {
                                return Err(format!("end: at most {:?} samples promised", most));
                            }
                        }
                    }
                }
                let mut all = vec![];
                for (i, x) in out {
                    all.push((i, x.ok_or_else(|| "end: no sample".to_string())?));
                }
                Ok((all, at))
            }};
        }
        every!(self, d => go!(d))
    }
    pub fn mean(&self) -> Option<f64> {
        but_cauchy!(self, d => d.mean())
    }
    pub fn variance(&self) -> Option<f64> {
        but_cauchy!(self, d => d.variance())
    }
    pub fn deviation(&self) -> Option<f64> {
        but_cauchy!(self, d => d.deviation())
    }
    pub fn skewness(&self) -> Option<f64> {
        but_cauchy!(self, d => d.skewness())
    }
    pub fn kurtosis(&self) -> Option<f64> {
        but_cauchy!(self, d => d.kurtosis())
    }
    pub fn entropy(&self) -> f64 {
        every!(self, d => d.entropy())
    }
    /// The entropy, unless it takes a sum over many values.
    pub fn entropy_if_cheap(&self) -> f64 {
        match self {
            Dist::Binomial(d) if d.n() > 100 => 0.0,
            _ => self.entropy(),
        }
    }
    pub fn median(&self) -> Option<f64> {
        Some(match self {
            Dist::Gamma(_) => return None,
            Dist::Bernoulli(d) => d.median(),
            Dist::Beta(d) => d.median(),
            Dist::Binomial(d) => d.median(),
            Dist::Categorical(d) => d.median(),
            Dist::Cauchy(d) => d.median(),
            Dist::Exponential(d) => d.median(),
            Dist::Gaussian(d) => d.median(),
            Dist::Laplace(d) => d.median(),
            Dist::Logistic(d) => d.median(),
            Dist::Lognormal(d) => d.median(),
            Dist::Pert(d) => d.median(),
            Dist::Triangular(d) => d.median(),
            Dist::Uniform(d) => d.median(),
        })
    }
    pub fn modes(&self) -> Option<Vec<f64>> {
        Some(match self {
            Dist::Uniform(_) => return None,
            Dist::Bernoulli(d) => d.modes().into_iter().map(|x| x as f64).collect(),
            Dist::Binomial(d) => d.modes().into_iter().map(|x| x as f64).collect(),
            Dist::Categorical(d) => d.modes().into_iter().map(|x| x as f64).collect(),
            Dist::Beta(d) => d.modes(),
            Dist::Cauchy(d) => d.modes(),
            Dist::Exponential(d) => d.modes(),
            Dist::Gamma(d) => d.modes(),
            Dist::Gaussian(d) => d.modes(),
            Dist::Laplace(d) => d.modes(),
            Dist::Logistic(d) => d.modes(),
            Dist::Lognormal(d) => d.modes(),
            Dist::Pert(d) => d.modes(),
            Dist::Triangular(d) => d.modes(),
        })
    }
}
