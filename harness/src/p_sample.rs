//! Sampling: support, law, reproducibility.

use crate::gen::*;
use crate::oracle::*;
use crate::p_quant::{newton_regime, NEWTON};
use crate::refm;
use crate::runner::{hash64, Ctx, Family, Property, FUEL};
use crate::spec::Spec;
use probability::source::Source;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::Union;

/// Scripted words first, then a splitmix64 stream. Counts reads.
#[derive(Clone)]
pub struct Words {
    pub script: Vec<u64>,
    pub at: usize,
    pub state: u64,
    pub fuel: u64,
    pub reads: u64,
}

impl Words {
    pub fn new(script: Vec<u64>, seed: u64) -> Words {
        Words { script, at: 0, state: seed, fuel: u64::MAX, reads: 0 }
    }
}

impl Source for Words {
    #[inline]
    fn read_u64(&mut self) -> u64 {
        self.reads += 1;
        if self.reads > self.fuel {
            panic!("{}", FUEL);
        }
        if self.at < self.script.len() {
            self.at += 1;
            return self.script[self.at - 1];
        }
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

// --- P13: support and termination ------------------------------------------

/// Words that sit at the edges of what a sampler may read.
pub fn word() -> S<u64> {
    prop_oneof![
        2 => Just(0u64),
        2 => Just(u64::MAX),
        1 => 0u64..300,
        1 => (0u64..300).prop_map(|v| u64::MAX - v),
        2 => (0u32..64).prop_map(|k| 1u64 << k),
        1 => (0u32..64).prop_map(|k| !(1u64 << k)),
        1 => (0u32..64).prop_map(|k| u64::MAX >> k),
        1 => (0u32..64).prop_map(|k| u64::MAX << k),
        1 => (any::<u64>(), 1u32..64).prop_map(|(v, k)| v >> k),
        4 => any::<u64>(),
    ]
    .boxed()
}

/// The value of a discrete law carries probability (as far as the law itself
/// can tell).
fn possible(spec: &Spec, x: f64) -> Result<(), String> {
    match spec {
        Spec::Categorical { p } => ensure(p[x as usize] > 0.0, || format!("impossible: sampled {}, a value of no probability", x)),
        _ => Ok(()),
    }
}

fn support(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let (a, b) = c.spec.support();
    let slack = if c.spec.is_discrete() || a.is_infinite() || b.is_infinite() { 0.0 } else { 4.0 * EPS * a.abs().max(b.abs()) };
    let seed = *c.ns.last().unwrap_or(&1);
    let mut s = Words::new(c.ns.clone(), seed);
    let mut varied = false;
    let mut first = None;
    // Past the end of the script.
    for i in 0..6 {
        s.fuel = s.reads + 200_000;
        let x = d.sample(&mut s);
        ctx.draws += 1;
        ensure(!x.is_nan(), || format!("nan: sample {} is NaN", i))?;
        ensure(x >= a - slack && x <= b + slack, || format!("support: sample {} is {:e}, outside [{:e}, {:e}]", i, x, a, b))?;
        if c.spec.is_discrete() {
            ensure(x == x.trunc(), || format!("integer: {}", x))?;
            possible(&c.spec, x)?;
        }
        match first {
            None => first = Some(x),
            Some(f) => varied |= f != x,
        }
    }
    ctx.nontrivial = varied;
    Ok(())
}

fn scripted(spec: S<Spec>) -> S<Case> {
    (spec, prop::collection::vec(word(), 1..12)).prop_map(|(spec, ns)| Case { spec, xs: vec![], ns }).boxed()
}

fn small_shapes() -> S<Spec> {
    let shape = || prop_oneof![pow10(-3.0, 0.0), pow10(-3.0, 3.0), Just(1.0), Just(0.5)].boxed();
    prop_oneof![
        (shape(), shape(), interval()).prop_map(|(alpha, beta, (a, b))| Spec::Beta { alpha, beta, a, b }),
        (shape(), scale(-6.0, 6.0)).prop_map(|(k, theta)| Spec::Gamma { k, theta }),
    ]
    .boxed()
}

pub fn p13() -> Property {
    Property {
        id: "P13",
        rule: "random distribution (six draws; also wild ones, whose parameters differ by many orders of magnitude, and long categorical ones) and source words, scripted from edge values (0, 2^64 - 1, powers of two, runs of ones) and then pseudorandom; every sample inside the closed support, not NaN, of positive mass if categorical, within 200000 reads; non-trivial when the samples are not all the same",
        families: vec![
            Family { name: "everyday", strategy: || scripted(any_spec()), oracle: support, quick: 1_200_000, thorough: 60_000_000, chunk: 500 },
            Family { name: "shapes", strategy: || scripted(small_shapes()), oracle: support, quick: 600_000, thorough: 30_000_000, chunk: 500 },
            Family { name: "extreme", strategy: || scripted(extreme()), oracle: support, quick: 360_000, thorough: 18_000_000, chunk: 100 },
            Family { name: "wild", strategy: || scripted(wild()), oracle: support, quick: 360_000, thorough: 18_000_000, chunk: 100 },
            Family { name: "long", strategy: || scripted(long()), oracle: support, quick: 12_000, thorough: 600_000, chunk: 50 },
        ],
    }
}

// --- P14: goodness of fit ---------------------------------------------------

/// How unlikely a deviation must be to count as one.
const LEVEL: f64 = 1e-11;

/// P(chi-square with `df` degrees of freedom > x).
fn chi_tail(df: usize, x: f64) -> f64 {
    if x <= 0.0 {
        return 1.0;
    }
    if !x.is_finite() {
        return 0.0;
    }
    refm::cdf(&Spec::Gamma { k: df as f64 / 2.0, theta: 2.0 }, x).hi.f()
}

struct Bins {
    edges: Vec<f64>,
    /// Exact cumulative probabilities at the edges.
    lo: Vec<f64>,
    /// For a known deviation: the cumulative probability at the next value.
    next: Vec<f64>,
}

impl Bins {
    #[inline]
    fn find(&self, x: f64) -> usize {
        self.edges.partition_point(|e| *e < x)
    }
    fn probs(&self) -> Vec<f64> {
        let mut v = vec![];
        let mut last = 0.0;
        for &l in &self.lo {
            v.push(l - last);
            last = l;
        }
        v.push(1.0 - last);
        v
    }
}

/// Bin edges from a pilot sample and from the law's own landmarks, kept only
/// where rounding of a sample cannot move visible probability across one.
fn bins(spec: &Spec, pilot: &mut Vec<f64>, draws: usize, cells: usize, least: f64, still: f64) -> Bins {
    pilot.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = pilot.len();
    let mut e: Vec<f64> = vec![];
    for i in 1..cells {
        e.push(pilot[n * i / cells]);
    }
    for t in [2, 10, 50, 200] {
        e.push(pilot[n / cells / t]);
        e.push(pilot[n - 1 - n / cells / t]);
    }
    for z in [-3.0, -2.0, -1.0, 0.0, 1.0, 2.0, 3.0] {
        e.push(natural(spec, z));
    }
    let (a, b) = spec.support();
    if spec.is_discrete() {
        for v in e.iter_mut() {
            *v = v.floor();
        }
        e.extend([0.0, 1.0, b - 1.0]);
    }
    e.retain(|v| v.is_finite() && *v >= a && *v < b);
    e.sort_by(|a, b| a.partial_cmp(b).unwrap());
    e.dedup();
    let reach = if a.is_finite() && b.is_finite() { a.abs().max(b.abs()) } else { 0.0 };
    let (mut edges, mut lo, mut next) = (vec![], vec![], vec![]);
    let mut last = 0.0;
    for x in e {
        let t = refm::cdf(spec, x);
        let (l, h) = (t.lo.f(), t.hi.f());
        if !(l - last >= least && h >= least) {
            continue;
        }
        if !spec.is_discrete() {
            let centre = match spec {
                Spec::Cauchy { x0: m, .. } | Spec::Gaussian { mu: m, .. } | Spec::Laplace { mu: m, .. } | Spec::Logistic { mu: m, .. } => m.abs(),
                _ => 0.0,
            };
            let d = 8.0 * EPS * x.abs().max(reach).max(centre);
            let move_ = (refm::cdf(spec, x + d).lo - refm::cdf(spec, x - d).lo).f();
            if move_ > still.min(0.02 / (draws as f64).sqrt() * (l.min(h)).sqrt()) {
                continue;
            }
        }
        edges.push(x);
        lo.push(l);
        next.push(if spec.is_discrete() { refm::cdf(spec, x + 1.0).lo.f() } else { l });
        last = l;
    }
    Bins { edges, lo, next }
}

fn chi(counts: &[u64], probs: &[f64], n: f64) -> f64 {
    counts
        .iter()
        .zip(probs)
        .map(|(&o, &p)| {
            let e = n * p;
            let d = o as f64 - e;
            if e > 0.0 {
                d * d / e
            } else if o > 0 {
                f64::INFINITY
            } else {
                0.0
            }
        })
        .sum()
}

fn fit(c: &Case, ctx: &mut Ctx, draws: usize, cells: usize) -> Result<(), String> {
    let d = c.spec.build();
    let seed = *c.ns.first().unwrap_or(&1);
    let mut pilot = vec![];
    let mut s = Words::new(vec![], hash64(&seed.to_le_bytes()));
    for _ in 0..(draws / 20).clamp(1000, 20_000) {
        pilot.push(d.sample(&mut s));
    }
    ensure(pilot.iter().all(|x| !x.is_nan()), || "nan: a sample is NaN".to_string())?;
    let b = bins(&c.spec, &mut pilot, draws, cells, 12.0 / draws as f64, 1.0);
    if b.edges.is_empty() {
        return Ok(());
    }
    ctx.draws += draws as u64;
    ctx.nontrivial = b.edges.len() >= if c.spec.is_discrete() { 1 } else { 5 };
    // A coarser grid for pairs.
    let probs = b.probs();
    let mut group = vec![0usize; probs.len()];
    let mut gp: Vec<f64> = vec![0.0];
    for (i, &p) in probs.iter().enumerate() {
        if *gp.last().unwrap() >= 0.12 {
            gp.push(0.0);
        }
        *gp.last_mut().unwrap() += p;
        group[i] = gp.len() - 1;
    }
    let g = gp.len();
    let mut counts = vec![0u64; probs.len()];
    // Disjoint pairs: neighbours from even and odd starts, and at lag two.
    let mut pairs = [vec![0u64; g * g], vec![0u64; g * g], vec![0u64; g * g]];
    let mut s = Words::new(vec![], seed);
    let (mut w1, mut w2) = (0usize, 0usize);
    for i in 0..draws {
        let x = d.sample(&mut s);
        ensure(!x.is_nan(), || "nan: a sample is NaN".to_string())?;
        let k = b.find(x);
        counts[k] += 1;
        let w = group[k];
        if i & 1 == 1 {
            pairs[0][w1 * g + w] += 1;
        } else if i > 0 {
            pairs[1][w1 * g + w] += 1;
        }
        if i % 4 >= 2 {
            pairs[2][w2 * g + w] += 1;
        }
        w2 = w1;
        w1 = w;
    }
    let n = draws as f64;
    let stat = chi(&counts, &probs, n);
    let p = chi_tail(probs.len() - 1, stat);
    ctx.ratio(&format!("-log10 p/{}", c.spec.name()), -p.max(1e-99).log10() / 11.0);
    if p < LEVEL {
        if newton_regime(&c.spec) {
            // The quantile minus one, for some of the probabilities.
            let mut cum = 0u64;
            let sane = b.lo.iter().zip(&b.next).zip(&counts).all(|((&l, &h), &k)| {
                cum += k;
                let f = cum as f64 / n;
                let sd = |p: f64| 7.0 * (p * (1.0 - p) / n).sqrt() + 20.0 / n;
                f >= l - sd(l) && f <= h + sd(h)
            });
            if sane {
                ctx.finding(NEWTON, format!("{} samples fail the fit with p = {:.1e}, shifted by less than one value", draws, p));
                return Ok(());
            }
        }
        let (i, _) = (0..probs.len())
            .map(|i| (i, (counts[i] as f64 - n * probs[i]).abs() / (n * probs[i]).sqrt()))
            .max_by(|a, b| a.1.partial_cmp(&b.1).unwrap())
            .unwrap();
        let at = |j: usize| if j < b.edges.len() { b.edges[j] } else { f64::INFINITY };
        let from = if i == 0 { f64::NEG_INFINITY } else { at(i - 1) };
        return Err(format!(
            "fit: {} samples, chi-square {:.1} in {} bins (p = {:.1e}); worst bin ({:e}, {:e}] has {} instead of {:.1}",
            draws,
            stat,
            probs.len(),
            p,
            from,
            at(i),
            counts[i],
            n * probs[i]
        ));
    }
    if newton_regime(&c.spec) {
        return Ok(());
    }
    // Cumulative frequencies: sees small shifts that are spread over many
    // bins. Massart's inequality bounds the probability for every law.
    let (mut cum, mut worst, mut at) = (0u64, 0.0f64, 0.0);
    for ((&k, &l), &e) in counts.iter().zip(&b.lo).zip(&b.edges) {
        cum += k;
        let dev = (cum as f64 / n - l).abs() * n.sqrt();
        if dev > worst {
            (worst, at) = (dev, e);
        }
    }
    let p = (2.0 * (-2.0 * worst * worst).exp()).min(1.0);
    ctx.ratio(&format!("-log10 p cumulative/{}", c.spec.name()), -p.max(1e-99).log10() / 11.0);
    ensure(p >= LEVEL, || format!("shift: {} samples, the frequency of values up to {:e} is off by {:.2e} (p = {:.1e})", draws, at, worst / n.sqrt(), p))?;
    for (j, t) in pairs.iter().enumerate() {
        let m: u64 = t.iter().sum();
        let joint: Vec<f64> = (0..g * g).map(|i| gp[i / g] * gp[i % g]).collect();
        let stat = chi(t, &joint, m as f64);
        // Expected counts must carry the approximation.
        if joint.iter().any(|&q| q * (m as f64) < 8.0) {
            continue;
        }
        let p = if g > 1 { chi_tail(g * g - 1, stat) } else { 1.0 };
        ctx.ratio(&format!("-log10 p pairs/{}", c.spec.name()), -p.max(1e-99).log10() / 11.0);
        ensure(p >= LEVEL, || {
            format!(
                "dependence: {} pairs of {} samples, chi-square {:.1} in {} cells (p = {:.1e})",
                m,
                ["neighbouring (even start)", "neighbouring (odd start)", "every second"][j],
                stat,
                g * g,
                p
            )
        })?;
    }
    Ok(())
}

fn fit_wide(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    fit(c, ctx, 20_000, 30)
}

fn fit_deep(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    fit(c, ctx, 2_000_000, 100)?;
    repeats(c, ctx, 2_000_000)
}

/// Continuous laws whose samples hardly ever coincide in double precision.
fn resolved(spec: &Spec) -> bool {
    match spec {
        Spec::Beta { alpha, beta, a, .. } => *alpha >= 0.9 && *beta >= 0.9 && *a == 0.0,
        Spec::Pert { a, .. } | Spec::Triangular { a, .. } | Spec::Uniform { a, .. } => *a == 0.0,
        Spec::Cauchy { x0: m, .. } | Spec::Gaussian { mu: m, .. } | Spec::Laplace { mu: m, .. } | Spec::Logistic { mu: m, .. } => *m == 0.0,
        Spec::Exponential { .. } | Spec::Lognormal { .. } => true,
        Spec::Gamma { k, .. } => *k >= 0.1,
        _ => false,
    }
}

/// A continuous law yields no value twice, up to the resolution of its
/// samplers: 2^32 equally likely values (Gaussian), and 2^30 are asked for.
fn repeats(c: &Case, ctx: &mut Ctx, draws: usize) -> Result<(), String> {
    if !resolved(&c.spec) {
        return Ok(());
    }
    let d = c.spec.build();
    let mut s = Words::new(vec![], hash64(&c.ns[0].to_le_bytes()) ^ 1);
    let mut v: Vec<u64> = (0..draws).map(|_| d.sample(&mut s).to_bits()).collect();
    v.sort_unstable();
    let n = draws as f64;
    // Pairs of equal samples.
    let (mut pairs, mut run) = (0u64, 0u64);
    for w in v.windows(2) {
        run = if w[0] == w[1] { run + 1 } else { 0 };
        pairs += run;
    }
    let limit = n * n / 2.0 / 2f64.powi(30);
    let limit = limit + 10.0 * limit.sqrt();
    ctx.ratio(&format!("repeats/{}", c.spec.name()), pairs as f64 / limit);
    ensure(pairs as f64 <= limit, || format!("resolution: {} of {} samples of a continuous distribution coincide in pairs (at most {:.0} are allowed)", pairs, draws, limit))
}

fn fit_vast(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    fit(c, ctx, 16_000_000, 100)
}

// First words on a randomly shifted grid. Every sample still is one from a
// uniformly distributed first word and independent further ones, but counts
// vary far less, so that much smaller deviations show.

struct Strata {
    first: Option<u64>,
    rest: Words,
}

impl Source for Strata {
    #[inline]
    fn read_u64(&mut self) -> u64 {
        match self.first.take() {
            Some(w) => w,
            None => self.rest.read_u64(),
        }
    }
}

const BATCHES: usize = 64;

/// Batches of 2^m samples, with the counts compared between batches.
fn strata(c: &Case, ctx: &mut Ctx, m: u32, cells: usize) -> Result<(), String> {
    let d = c.spec.build();
    let n = 1u64 << m;
    let draws = BATCHES * n as usize;
    let seed = c.ns[0];
    let mut s = Strata { first: None, rest: Words::new(vec![], hash64(&seed.to_le_bytes()) ^ 2) };
    let mut pilot: Vec<f64> = (0..40_000).map(|_| d.sample(&mut s)).collect();
    ensure(pilot.iter().all(|x| !x.is_nan()), || "nan: a sample is NaN".to_string())?;
    let b = bins(&c.spec, &mut pilot, draws, cells, 200.0 / n as f64, 1e-8);
    if b.edges.is_empty() || newton_regime(&c.spec) {
        return Ok(());
    }
    ctx.draws += draws as u64;
    ctx.nontrivial = b.edges.len() >= if c.spec.is_discrete() { 1 } else { 5 };
    let probs = b.probs();
    // Sums and sums of squares of the deviations, per bin and up to it.
    let mut single = vec![(0.0f64, 0.0f64); probs.len()];
    let mut upto = single.clone();
    for _ in 0..BATCHES {
        let shift = s.rest.read_u64();
        let mut counts = vec![0u64; probs.len()];
        for i in 0..n {
            let low = ((i >> 8) << (40 - m)) as u32 | (i & 0xFF) as u32;
            let free = ((1u64 << (32 - m)) - 1) << 32 | ((1u64 << (40 - m)) - 1) & !0xFF;
            let word = ((i as u32).reverse_bits() as u64) << 32 | low as u64 | s.rest.read_u64() & free;
            s.first = Some(word ^ shift);
            let x = d.sample(&mut s);
            counts[b.find(x)] += 1;
        }
        let mut cum = 0.0;
        for (i, &k) in counts.iter().enumerate() {
            let dev = k as f64 - n as f64 * probs[i];
            cum += dev;
            single[i].0 += dev;
            single[i].1 += dev * dev;
            upto[i].0 += cum;
            upto[i].1 += cum * cum;
        }
    }
    let r = BATCHES as f64;
    for (what, v) in [("in", &single), ("up to", &upto)] {
        for (i, &(a, q)) in v.iter().enumerate() {
            let mean = a / r;
            let sd = ((q / r - mean * mean).max(0.0) * r / (r - 1.0)).sqrt();
            let limit = 10.0 * sd.max(3.0) / r.sqrt() + n as f64 * 1e-7;
            ctx.ratio(&format!("strata {}/{}", what, c.spec.name()), mean.abs() / limit);
            ensure(mean.abs() <= limit, || {
                let at = |j: usize| if j < b.edges.len() { b.edges[j] } else { f64::INFINITY };
                let from = if i == 0 || what == "up to" { f64::NEG_INFINITY } else { at(i - 1) };
                format!(
                    "strata: {} batches of {} samples with evenly spread first words have {:.2} too many (expected {:.1}, standard deviation {:.2}) in ({:e}, {:e}]",
                    BATCHES,
                    n,
                    mean,
                    n as f64 * if what == "in" { probs[i] } else { *b.lo.get(i).unwrap_or(&1.0) },
                    sd,
                    from,
                    at(i)
                )
            })?;
        }
    }
    Ok(())
}

fn fit_strata(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let costly = matches!(c.spec, Spec::Beta { .. } | Spec::Gamma { .. } | Spec::Pert { .. });
    strata(c, ctx, if costly { 19 } else { 20 }, 150)
}

fn fit_layers(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    strata(c, ctx, 22, 400)
}

/// Where the probability below (or above) is about `p`.
fn edge(spec: &Spec, p: f64, upper: bool) -> Option<(f64, f64)> {
    let tail = |x: f64| {
        let t = refm::cdf(spec, x);
        if upper { t.hi.f() } else { t.lo.f() }
    };
    // Bisection over the doubles in their order.
    let key = |x: f64| {
        let b = x.to_bits() as i64;
        if b < 0 { i64::MIN - b } else { b }
    };
    let value = |k: i64| f64::from_bits(if k < 0 { (i64::MIN - k) as u64 } else { k as u64 });
    let (a, b) = spec.support();
    let (mut l, mut r) = (key(a.max(-1e300)), key(b.min(1e300)));
    while r > l + 1 {
        let m = ((l as i128 + r as i128) / 2) as i64;
        let m = if m == l { l + 1 } else { m };
        if (tail(value(m)) > p) == upper { l = m } else { r = m }
    }
    let x = value(l);
    let d = 8.0 * EPS * x.abs();
    let (t, e, f) = (tail(x), tail(x - d), tail(x + d));
    ((e - f).abs() <= 1e-4 * t && t > 0.5 * p && t < 2.0 * p).then_some((x, t))
}

/// The frequencies of values so small, or so large, that they are seldom.
fn fit_tails(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let costly = matches!(c.spec, Spec::Beta { .. } | Spec::Gamma { .. } | Spec::Pert { .. });
    let draws = if costly { 16_000_000usize } else { 64_000_000 };
    let levels = || (5..=10).map(|i| 0.25f64.powi(i));
    let low: Vec<_> = levels().filter_map(|p| edge(&c.spec, p, false)).collect();
    let high: Vec<_> = levels().filter_map(|p| edge(&c.spec, p, true)).collect();
    ctx.draws += draws as u64;
    ctx.nontrivial = low.len() + high.len() >= 4;
    let (first, last) = (low.first().map_or(f64::NEG_INFINITY, |e| e.0), high.first().map_or(f64::INFINITY, |e| e.0));
    let mut counts = [vec![0u64; low.len()], vec![0u64; high.len()]];
    let mut s = Words::new(vec![], hash64(&c.ns[0].to_le_bytes()) ^ 3);
    for _ in 0..draws {
        let x = d.sample(&mut s);
        if x <= first {
            for (n, e) in counts[0].iter_mut().zip(&low) {
                *n += (x <= e.0) as u64;
            }
        }
        if x > last {
            for (n, e) in counts[1].iter_mut().zip(&high) {
                *n += (x > e.0) as u64;
            }
        }
    }
    for (what, edges, counts) in [("up to", &low, &counts[0]), ("above", &high, &counts[1])] {
        for (&(x, p), &n) in edges.iter().zip(counts) {
            // The tails of a Poisson law are beyond those of a binomial one.
            let mean = draws as f64 * p;
            let at = |k: f64| refm::cdf(&Spec::Gamma { k, theta: 1.0 }, mean);
            let more = if n == 0 { 1.0 } else { at(n as f64).lo.f() };
            let p = more.min(at(n as f64 + 1.0).hi.f());
            ctx.ratio(&format!("-log10 p tails/{}", c.spec.name()), -p.max(1e-99).log10() / 11.0);
            ensure(p >= LEVEL, || format!("tail: {} of {} samples {} {:e} instead of {:.1} (p = {:.1e})", n, draws, what, x, mean, p))?;
        }
    }
    Ok(())
}

/// The frequencies of values that are seldom seen.
fn fit_rare(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let masses: Vec<f64> = match &c.spec {
        Spec::Categorical { p } => p.clone(),
        spec => {
            let (p, q) = refm::pq(spec);
            let n = refm::trials(spec);
            (0..=n).map(|k| refm::ln_binomial_mass(n, p, q, k).exp().f()).collect()
        }
    };
    let costly = masses.len() > 2 && !matches!(c.spec, Spec::Categorical { .. });
    let draws = if costly { 8_000_000usize } else { 64_000_000 };
    ctx.draws += draws as u64;
    ctx.nontrivial = masses.iter().any(|&m| m > 0.0 && m < 1e-3);
    let mut counts = vec![0u64; masses.len()];
    let mut s = Words::new(vec![], hash64(&c.ns[0].to_le_bytes()) ^ 5);
    for _ in 0..draws {
        counts[d.sample(&mut s) as usize] += 1;
    }
    for (k, (&m, &n)) in masses.iter().zip(&counts).enumerate() {
        if m >= 1e-3 {
            continue;
        }
        ensure(m > 0.0 || n == 0, || format!("rare: {} of {} samples are {}, which is impossible", n, draws, k))?;
        let mean = draws as f64 * m;
        if mean < 1e-30 {
            continue;
        }
        // The tails of a Poisson law are beyond those of a binomial one.
        let at = |k: f64| refm::cdf(&Spec::Gamma { k, theta: 1.0 }, mean);
        let more = if n == 0 { 1.0 } else { at(n as f64).lo.f() };
        let p = more.min(at(n as f64 + 1.0).hi.f());
        ctx.ratio(&format!("-log10 p rare/{}", c.spec.name()), -p.max(1e-99).log10() / 11.0);
        ensure(p >= LEVEL, || format!("rare: {} of {} samples are {} instead of {:.1} (p = {:.1e})", n, draws, k, mean, p))?;
    }
    Ok(())
}

/// Discrete laws with values that are seldom seen.
fn seldom() -> S<Spec> {
    let rare = || pow10(-9.0, -3.0);
    prop_oneof![
        2 => rare().prop_map(|p| Spec::Bernoulli { p }),
        2 => rare().prop_map(|q| Spec::BernoulliF { q }),
        2 => (1u64..30, rare(), any::<bool>()).prop_map(|(n, p, f)| if f { Spec::BinomialF { n, q: p } } else { Spec::Binomial { n, p } }),
        3 => prop::collection::vec(prop_oneof![2 => rare(), 1 => Just(0.0), 2 => 0.1f64..1.0], 2..12)
            .prop_filter("positive", |w| w.iter().sum::<f64>() > 0.0)
            .prop_map(normalise),
    ]
    .boxed()
}

/// Continuous laws at plain settings, the ones that are quick to sample above
/// all.
fn tailed() -> S<Spec> {
    let shape = || prop_oneof![select(vec![0.5, 1.0, 2.0]), pow10(-0.7, 1.5)].boxed();
    Union::new_weighted(vec![
        (3, Just(Spec::Gaussian { mu: 0.0, sigma: 1.0 }).boxed()),
        (2, Just(Spec::Cauchy { x0: 0.0, gamma: 1.0 }).boxed()),
        (2, Just(Spec::Exponential { lambda: 1.0 }).boxed()),
        (2, Just(Spec::Laplace { mu: 0.0, b: 1.0 }).boxed()),
        (2, Just(Spec::Logistic { mu: 0.0, s: 1.0 }).boxed()),
        (1, Just(Spec::Lognormal { mu: 0.0, sigma: 0.5 }).boxed()),
        (1, Just(Spec::Uniform { a: 0.0, b: 1.0 }).boxed()),
        (1, (0.0f64..=1.0).prop_map(|c| Spec::Triangular { a: 0.0, b: 1.0, c }).boxed()),
        (1, (0.01f64..0.99).prop_map(|b| Spec::Pert { a: 0.0, b, c: 1.0 }).boxed()),
        (2, shape().prop_map(|k| Spec::Gamma { k, theta: 1.0 }).boxed()),
        (2, (shape(), shape()).prop_map(|(alpha, beta)| Spec::Beta { alpha, beta, a: 0.0, b: 1.0 }).boxed()),
    ])
    .boxed()
}

/// Laws that are cheap to sample, so that there can be many samples.
fn cheap() -> S<Spec> {
    standard().prop_filter("cheap", |s| !matches!(s, Spec::Binomial { n, .. } if *n > 20)).boxed()
}

fn gaussian() -> S<Spec> {
    Just(Spec::Gaussian { mu: 0.0, sigma: 1.0 }).boxed()
}

/// The samplers with methods of their own, once more.
fn special() -> S<Spec> {
    Union::new_weighted(vec![
        (4, Just(Spec::Gaussian { mu: 0.0, sigma: 1.0 }).boxed()),
        (1, Just(Spec::Cauchy { x0: 0.0, gamma: 1.0 }).boxed()),
        (3, prop_oneof![select(vec![0.5, 1.0, 2.0]), pow10(-0.7, 1.0)].prop_map(|k| Spec::Gamma { k, theta: 1.0 }).boxed()),
        (2, (pow10(-0.5, 1.0), pow10(-0.5, 1.0)).prop_map(|(alpha, beta)| Spec::Beta { alpha, beta, a: 0.0, b: 1.0 }).boxed()),
    ])
    .boxed()
}

/// Counts of trials with a spread, and of rare events in very many trials.
fn counts() -> S<Spec> {
    let make = |n: u64, p: f64, f: bool| if f { Spec::BinomialF { n, q: p } } else { Spec::Binomial { n, p } };
    prop_oneof![
        2 => (pow10(2.3, 4.7), pow10(-2.0, -0.3), any::<bool>()).prop_map(move |(n, p, f)| make(n as u64, p, f)),
        1 => (pow10(3.0, 11.0), pow10(-1.0, 1.7), any::<bool>()).prop_map(move |(n, m, f)| make(n as u64, m / n, f)),
    ]
    .boxed()
}

fn seeded(spec: S<Spec>) -> S<Case> {
    (spec, any::<u64>()).prop_map(|(spec, seed)| Case { spec, xs: vec![], ns: vec![seed] }).boxed()
}

/// Not so far off the origin that a spread is a few units in the last place.
fn samplable() -> S<Spec> {
    any_spec().prop_filter("well scaled", well_scaled).boxed()
}

fn well_scaled(s: &Spec) -> bool {
    match s {
        Spec::Cauchy { x0: m, gamma: s }
        | Spec::Gaussian { mu: m, sigma: s }
        | Spec::Laplace { mu: m, b: s }
        | Spec::Logistic { mu: m, s } => m.abs() < 1e7 * s,
        // Laws that are certain to a sampler.
        Spec::Bernoulli { p } | Spec::BernoulliF { q: p } => *p > 1e-3 && *p < 0.999,
        Spec::Binomial { n, p } | Spec::BinomialF { n, q: p } => *n as f64 * p > 1e-3 && *n as f64 * (1.0 - p) > 1e-3,
        _ => true,
    }
}

/// The samplers with methods of their own, at a few plain settings.
fn standard() -> S<Spec> {
    let shape = || {
        prop_oneof![
            2 => select(vec![0.5, 0.9, 1.0, 1.1, 2.0, 5.0, 30.0]),
            2 => pow10(-1.0, 2.0),
        ]
        .boxed()
    };
    Union::new_weighted(vec![
        (4, Just(Spec::Gaussian { mu: 0.0, sigma: 1.0 }).boxed()),
        (2, Just(Spec::Cauchy { x0: 0.0, gamma: 1.0 }).boxed()),
        (1, Just(Spec::Exponential { lambda: 1.0 }).boxed()),
        (1, Just(Spec::Laplace { mu: 0.0, b: 1.0 }).boxed()),
        (1, Just(Spec::Logistic { mu: 0.0, s: 1.0 }).boxed()),
        (1, Just(Spec::Lognormal { mu: 0.0, sigma: 0.5 }).boxed()),
        (1, Just(Spec::Uniform { a: 0.0, b: 1.0 }).boxed()),
        (1, (0.0f64..=1.0).prop_map(|c| Spec::Triangular { a: 0.0, b: 1.0, c }).boxed()),
        (2, (0.01f64..0.99).prop_map(|b| Spec::Pert { a: 0.0, b, c: 1.0 }).boxed()),
        (6, shape().prop_map(|k| Spec::Gamma { k, theta: 1.0 }).boxed()),
        (6, (shape(), shape()).prop_map(|(alpha, beta)| Spec::Beta { alpha, beta, a: 0.0, b: 1.0 }).boxed()),
        (1, prob().prop_filter("visible", |p| *p > 1e-4 && *p < 0.9999).prop_map(|p| Spec::Bernoulli { p }).boxed()),
        (2, (1u64..60, 0.02f64..0.98).prop_map(|(n, p)| Spec::Binomial { n, p }).boxed()),
        (2, categorical_spec()),
    ])
    .boxed()
}

pub fn p14() -> Property {
    Property {
        id: "P14",
        rule: "random distribution and seed; 20000 (wide) or 2000000 (deep, and counts: binomial laws) or 16000000 (vast) samples from a splitmix64 source, chi-square against reference cumulative probabilities on up to 45 (115) bins, Kolmogorov-Smirnov over the bin edges, and chi-square against independence for pairs at lags one and two, each rejected at p < 1e-11; coincidences among 2000000 samples; counts of samples whose first words lie on a randomly shifted grid, 64 batches of 2^19 to 2^22 (strata, layers), mean deviation within ten standard deviations; numbers of samples in tails of probabilities 2^-10 to 2^-20 out of 16000000 or 64000000 (tails), and of discrete values rarer than 1e-3 out of 8000000 or 64000000 (rare), rejected at p < 1e-11; non-trivial when at least five bin edges (one if discrete) were usable",
        families: vec![
            Family { name: "vast", strategy: || seeded(special()), oracle: fit_vast, quick: 24, thorough: 1_200, chunk: 1 },
            Family { name: "layers", strategy: || seeded(gaussian()), oracle: fit_layers, quick: 8, thorough: 400, chunk: 1 },
            Family { name: "rare", strategy: || seeded(seldom()), oracle: fit_rare, quick: 48, thorough: 2_400, chunk: 1 },
            Family { name: "tails", strategy: || seeded(tailed()), oracle: fit_tails, quick: 48, thorough: 2_400, chunk: 1 },
            Family { name: "strata", strategy: || seeded(cheap()), oracle: fit_strata, quick: 48, thorough: 2_400, chunk: 1 },
            Family { name: "counts", strategy: || seeded(counts()), oracle: fit_deep, quick: 16, thorough: 800, chunk: 1 },
            Family { name: "wide", strategy: || seeded(samplable()), oracle: fit_wide, quick: 6_000, thorough: 300_000, chunk: 1 },
            Family { name: "deep", strategy: || seeded(standard()), oracle: fit_deep, quick: 160, thorough: 8_000, chunk: 1 },
        ],
    }
}

// --- P15: reproducibility -----------------------------------------------------

fn stream(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let n = (c.ns[0] % 12) as usize;
    let m = (c.ns[1] % 12) as usize;
    let script: Vec<u64> = c.ns[3..].to_vec();
    let source = || Words::new(script.clone(), c.ns[2]);
    let same = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits());
    // One by one.
    let mut s = source();
    let mut one = vec![];
    let mut reads = vec![];
    for _ in 0..n + m {
        one.push(d.sample(&mut s));
        reads.push(s.reads);
    }
    ctx.draws += (n + m) as u64;
    // Again, with a copy of the distribution made anew.
    let e = c.spec.build();
    let mut s2 = source();
    let two: Vec<f64> = (0..n + m).map(|_| e.sample(&mut s2)).collect();
    ensure(same(&one, &two), || format!("deterministic: {:?} and then {:?}", one, two))?;
    ensure(s2.reads == s.reads, || format!("reads: {} and then {}", s.reads, s2.reads))?;
    // The sampler, all at once and in two parts, on the same source.
    let mut s3 = source();
    let all = d.independent(&mut s3, n + m);
    ensure(same(&one, &all), || format!("sampler: {:?} instead of {:?}", all, one))?;
    ensure(s3.reads == s.reads, || format!("sampler: {} reads instead of {}", s3.reads, s.reads))?;
    let mut s4 = source();
    let mut parts = d.independent(&mut s4, n);
    let at = s4.reads;
    let want = if n == 0 { 0 } else { reads[n - 1] };
    ensure(at == want, || format!("lookahead: {} reads for {} samples instead of {}", at, n, want))?;
    parts.extend(d.clone().independent(&mut s4, m));
    ensure(same(&one, &parts), || format!("parts: {:?} instead of {:?}", parts, one))?;
    // What is asked of the distribution in between does not matter.
    let mut s5 = source();
    let mut between = vec![];
    for i in 0..n + m {
        let _ = (d.cdf(0.5), d.mean(), d.variance(), d.entropy_if_cheap());
        if i % 3 == 1 {
            let mut other = Words::new(vec![], 9);
            let _ = d.sample(&mut other);
        }
        between.push(d.sample(&mut s5));
    }
    ensure(same(&one, &between), || format!("history: {:?} instead of {:?}", between, one))?;
    // A sample depends on the words it reads and nothing before them.
    let mut at = 0u64;
    for (i, &r) in reads.iter().enumerate() {
        let mut skip = source();
        for _ in 0..at {
            skip.read_u64();
        }
        let x = d.sample(&mut skip);
        ensure(x.to_bits() == one[i].to_bits(), || format!("memory: sample {} is {:e} on its own and {:e} in sequence", i, x, one[i]))?;
        at = r;
    }
    // The crate's own default source.
    let mut x = probability::source::default(c.ns[2]);
    let mut y = probability::source::default(c.ns[2]);
    let a: Vec<f64> = (0..n).map(|_| d.sample(&mut x)).collect();
    let b = d.independent(&mut y, n);
    ensure(same(&a, &b), || format!("default source: {:?} and {:?}", a, b))?;
    ensure(x.read_u64() == y.read_u64(), || "default source: out of step".to_string())?;
    ctx.nontrivial = n > 0 && m > 0 && one.iter().any(|v| *v != one[0]);
    Ok(())
}

/// The sampler as an iterator, however it is walked.
fn walk(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let ops: Vec<(u8, usize)> = c.ns[1..].iter().map(|w| ((w % 12) as u8, (w >> 8) as usize % 7)).collect();
    let source = || Words::new(vec![], c.ns[0]);
    let mut s = source();
    let (got, taken) = d.adapted(&mut s, &ops)?;
    let mut t = source();
    let mut reads = vec![0];
    let one: Vec<f64> = (0..taken)
        .map(|_| {
            let x = d.sample(&mut t);
            reads.push(t.reads);
            x
        })
        .collect();
    ctx.draws += taken as u64;
    for &(i, x) in &got {
        ensure(i < taken && one[i].to_bits() == x.to_bits(), || format!("walk: {:e} for sample {} instead of {:e}", x, i, one[i]))?;
    }
    ensure(s.reads == reads[taken], || format!("walk: {} reads for {} samples instead of {}", s.reads, taken, reads[taken]))?;
    ctx.nontrivial = got.len() > 1 && one.iter().any(|v| *v != one[0]);
    Ok(())
}

pub fn p15() -> Property {
    Property {
        id: "P15",
        rule: "random distribution, source words and two counts; the sequence is compared bit for bit with itself from a fresh object, through the Independent sampler whole and in two parts, with other calls in between, and sample by sample on a source advanced to the same word, reads counted; and through the sampler by random sequences of iterator methods (next, nth, skip, step_by, take, last, find, zip, ...); non-trivial when both parts are non-empty and the samples differ",
        families: vec![
            Family {
                name: "streams",
                strategy: || {
                    (any_spec(), any::<[u64; 3]>(), prop::collection::vec(word(), 0..6))
                        .prop_map(|(spec, h, w)| {
                            let mut ns = h.to_vec();
                            ns.extend(w);
                            Case { spec, xs: vec![], ns }
                        })
                        .boxed()
                },
                oracle: stream,
                quick: 360_000,
                thorough: 18_000_000,
                chunk: 200,
            },
            Family {
                name: "walks",
                strategy: || {
                    (any_spec(), any::<u64>(), prop::collection::vec((0u64..12, 0u64..7).prop_map(|(o, k)| o + (k << 8)), 1..8))
                        .prop_map(|(spec, seed, w)| {
                            let mut ns = vec![seed];
                            ns.extend(w);
                            Case { spec, xs: vec![], ns }
                        })
                        .boxed()
                },
                oracle: walk,
                quick: 360_000,
                thorough: 18_000_000,
                chunk: 200,
            },
            Family {
                name: "extreme",
                strategy: || {
                    (prop_oneof![1 => extreme(), 1 => brisk()], any::<[u64; 3]>(), prop::collection::vec(word(), 0..6))
                        .prop_map(|(spec, h, w)| {
                            let mut ns = h.to_vec();
                            ns.extend(w);
                            Case { spec, xs: vec![], ns }
                        })
                        .boxed()
                },
                oracle: stream,
                quick: 120_000,
                thorough: 6_000_000,
                chunk: 100,
            },
        ],
    }
}
