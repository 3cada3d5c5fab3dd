//! CDF validity and accuracy, density, density-CDF consistency, masses.

use crate::dd::*;
use crate::gen::*;
use proptest::prelude::*;
use crate::oracle::*;
use crate::refm;
use crate::runner::{hash64, Ctx, Family, Property};
use crate::spec::{Dist, Spec};

// --- P01: validity -------------------------------------------------------

fn valid_cdf(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let (a, b) = c.spec.support();
    let mut xs = c.xs.clone();
    // Close neighbours of the first point, where steps and seams show.
    if let Some(&x) = c.xs.first() {
        xs.push(next_up(x));
        xs.push(next_down(x));
    }
    xs.retain(|x| !x.is_nan());
    xs.sort_by(|p, q| p.partial_cmp(q).unwrap());
    let mut prev: Option<(f64, f64)> = None;
    let mut inside = 0;
    for &x in &xs {
        let f = d.cdf(x);
        ensure(!f.is_nan(), || format!("nan: F({:e}) is NaN", x))?;
        ensure((0.0..=1.0).contains(&f), || format!("range: F({:e}) = {:e}", x, f))?;
        if x < a {
            ensure(f == 0.0, || format!("below: F({:e}) = {:e} below the support", x, f))?;
        }
        if x >= b {
            ensure(f == 1.0, || format!("above: F({:e}) = {:e} at or above the support's end", x, f))?;
        }
        if f > 0.0 && f < 1.0 {
            inside += 1;
        }
        if let Some((px, pf)) = prev {
            // Rounding may undo an increase smaller than itself.
            let slack = if f < pf {
                let t = refm::cdf(&c.spec, x);
                let s = refm::cdf(&c.spec, px);
                cdf_tol(&c.spec, x, &t) + cdf_tol(&c.spec, px, &s)
            } else {
                0.0
            };
            ensure(pf <= f + slack, || {
                format!("monotone: F({:e}) = {:e} but F({:e}) = {:e}", px, pf, x, f)
            })?;
        }
        prev = Some((x, f));
    }
    let (lo, hi) = (d.cdf(f64::NEG_INFINITY), d.cdf(f64::INFINITY));
    ensure(lo == 0.0, || format!("limit: F(-inf) = {:e}", lo))?;
    ensure(hi == 1.0, || format!("limit: F(+inf) = {:e}", hi))?;
    ctx.nontrivial = inside >= 2;
    Ok(())
}

fn steps(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    // A discrete CDF is constant between integers and right-continuous.
    let d = c.spec.build();
    let (_, b) = c.spec.support();
    for &x in &c.xs {
        if !x.is_finite() || x.abs() > 1e15 {
            continue;
        }
        let k = x.floor();
        let f = d.cdf(k);
        for y in [k + 0.5, k + 0.25, next_down(k + 1.0), x] {
            if y.floor() == k {
                let g = d.cdf(y);
                ensure(f == g, || format!("step: F({:e}) = {:e} but F({:e}) = {:e}", k, f, y, g))?;
            }
        }
        if k < 0.0 {
            ensure(f == 0.0, || format!("below: F({:e}) = {:e}", k, f))?;
        }
        if k >= b {
            ensure(f == 1.0, || format!("above: F({:e}) = {:e}", k, f))?;
        }
        if k >= 0.0 && k < b && f > 0.0 && f < 1.0 {
            ctx.nontrivial = true;
        }
    }
    Ok(())
}

pub fn p01() -> Property {
    Property {
        id: "P01",
        rule: "random distribution of every family (also wild ones, whose parameters differ by many orders of magnitude, and extreme shapes), eight points (body, tails, endpoints, seams one ulp apart, outside, infinities); non-trivial when at least two evaluations are strictly between 0 and 1 (for steps: when some step is)",
        families: vec![
            Family { name: "valid", strategy: || with_points(any_spec(), 8), oracle: valid_cdf, quick: 1_440_000, thorough: 72_000_000, chunk: 500 },
            Family { name: "wild", strategy: || with_points(prop_oneof![8 => wild(), 4 => shapes(), 1 => brink()].prop_filter("reachable", reachable).boxed(), 6), oracle: valid_cdf, quick: 300_000, thorough: 15_000_000, chunk: 250 },
            Family { name: "rare", strategy: || with_points(rare(), 6), oracle: valid_cdf, quick: 200_000, thorough: 10_000_000, chunk: 500 },
            Family { name: "rare steps", strategy: || with_points(rare(), 6), oracle: steps, quick: 100_000, thorough: 5_000_000, chunk: 500 },
            Family { name: "steps", strategy: || with_points(discrete(), 6), oracle: steps, quick: 720_000, thorough: 36_000_000, chunk: 500 },
            Family { name: "long", strategy: || with_points(long(), 6), oracle: valid_cdf, quick: 12_000, thorough: 600_000, chunk: 50 },
        ],
    }
}

// --- P02: accuracy -------------------------------------------------------

pub fn cdf_accuracy(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    for &x in &c.xs {
        if x.is_nan() || matches!(c.spec, Spec::Gamma { theta, .. } if x > 0.0 && x / theta < 1e-300) {
            continue;
        }
        let f = d.cdf(x);
        let t = refm::cdf(&c.spec, x);
        let tol = cdf_tol(&c.spec, x, &t);
        if t.lo.f() > 1e-12 && t.hi.f() > 1e-12 {
            ctx.nontrivial = true;
        }
        close(ctx, "cdf", &c.spec, f, t.lo, tol).map_err(|m| format!("{} at x = {:e}", m, x))?;
    }
    Ok(())
}

/// Shapes so extreme that the incomplete functions lose digits.
fn cdf_coarse(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    for &x in &c.xs {
        let f = d.cdf(x);
        let t = refm::cdf(&c.spec, x);
        let mut tol = 8.0 * cdf_tol(&c.spec, x, &t) + 1e-13;
        if matches!(&c.spec, Spec::Gamma { theta, .. } if x / theta > 1e8) {
            // An expansion in the reciprocal of the shape.
            tol = tol.min(1e-7);
        }
        ctx.nontrivial |= t.lo.f() > 1e-12 && t.hi.f() > 1e-12;
        close(ctx, "coarse cdf", &c.spec, f, t.lo, tol).map_err(|m| format!("{} at x = {:e}", m, x))?;
    }
    Ok(())
}

pub fn p02() -> Property {
    Property {
        id: "P02",
        rule: "random distribution of every family (also wild ones, whose parameters differ by many orders of magnitude), two points; the CDF against a double-double reference within a stated rounding bound, eight times wider for gamma shapes of 1e-15 to 5e8 and beta shapes of 1e-12 to 1e5; non-trivial when both tails exceed 1e-12 at some point",
        families: vec![
            Family { name: "continuous", strategy: || with_points(continuous(), 2), oracle: cdf_accuracy, quick: 600_000, thorough: 30_000_000, chunk: 250 },
            Family { name: "shapes", strategy: || with_points(shapes(), 1), oracle: cdf_coarse, quick: 200_000, thorough: 10_000_000, chunk: 250 },
            Family { name: "wild", strategy: || with_points(prop_oneof![15 => wild_plain(), 1 => brink()].boxed(), 2), oracle: cdf_accuracy, quick: 200_000, thorough: 10_000_000, chunk: 250 },
            Family { name: "rare", strategy: || with_points(rare(), 2), oracle: cdf_accuracy, quick: 200_000, thorough: 10_000_000, chunk: 250 },
            Family { name: "discrete", strategy: || with_points(discrete(), 2), oracle: cdf_accuracy, quick: 400_000, thorough: 20_000_000, chunk: 250 },
            Family { name: "long", strategy: || with_points(long(), 6), oracle: cdf_accuracy, quick: 6_000, thorough: 300_000, chunk: 50 },
        ],
    }
}

// --- P03: density --------------------------------------------------------

fn density(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let (a, b) = c.spec.support();
    for &x in &c.xs {
        if x.is_nan() {
            continue;
        }
        let f = d.density(x).unwrap();
        ensure(!f.is_nan(), || format!("nan: density({:e}) is NaN", x))?;
        ensure(f >= 0.0, || format!("sign: density({:e}) = {:e}", x, f))?;
        if x < a || x > b || x.is_infinite() {
            ensure(f == 0.0, || format!("support: density({:e}) = {:e} outside the support", x, f))?;
            continue;
        }
        if x == a || x == b {
            endpoint(&c.spec, x, f, ctx)?;
            continue;
        }
        if let Some((_, _, a, b)) = refm::beta_like(&c.spec) {
            // Within an ulp of the end of the unit interval the argument
            // itself rounds to the endpoint.
            if ((b - dd(x)) / (b - a)).f() < 4.0 * EPS {
                continue;
            }
        }
        let unit = spread(&c.spec).max(1.0);
        if (x - a) / unit < 1e-290 || (b - x) / unit < 1e-290 {
            // Subnormal distances carry no relative precision.
            continue;
        }
        let (l, cond) = refm::ln_density(&c.spec, x);
        // In terms of the spread, as the exponential comes before the division
        // by it.
        let level = l.hi.min(l.hi + spread(&c.spec).ln());
        if level < -600.0 || (l.hi < 0.0 && cond > 690.0 && matches!(c.spec, Spec::Lognormal { .. })) {
            // Factors may underflow: only an upper bound is asked for.
            let bound = (1e-250 * (1.0f64).max(1.0 / spread(&c.spec))).max((1.001 + density_rel(&c.spec, x, cond)) * l.exp().f());
            // The exponential of a lognormal law rounds to a subnormal number
            // before the division by the argument.
            let bound = bound + if let Spec::Lognormal { sigma, .. } = c.spec { 1e-323 / (sigma * x) } else { 0.0 };
            ensure(f <= bound, || format!("density: density({:e}) = {:e}, expected below {:e}", x, f, bound))?;
            continue;
        }
        if l.hi > 700.0 || !cond.is_finite() {
            continue;
        }
        if l.hi > -30.0 {
            ctx.nontrivial = true;
        }
        let want = l.exp();
        let tol = density_rel(&c.spec, x, cond) * want.f() + 1e-300;
        close(ctx, "density", &c.spec, f, want, tol).map_err(|m| format!("{} at x = {:e}", m, x))?;
    }
    Ok(())
}

fn spread(spec: &Spec) -> f64 {
    match spec {
        Spec::Exponential { lambda } => 1.0 / lambda,
        _ => {
            let (a, b) = spec.support();
            if (b - a).is_finite() { b - a } else { spec.aim().1 }
        }
    }
}

/// Limits of the density at a finite end of the support. Where the density
/// jumps (the triangular mode at an end, the exponential origin) or the law
/// says nothing about a single point, the one-sided limit or zero is accepted.
fn endpoint(spec: &Spec, x: f64, f: f64, ctx: &mut Ctx) -> Result<(), String> {
    let (a, _) = spec.support();
    let left = x == a;
    let limit = match spec {
        Spec::Beta { alpha, beta, a, b } => {
            let (s, o) = if left { (*alpha, *beta) } else { (*beta, *alpha) };
            if s < 1.0 {
                f64::INFINITY
            } else if s == 1.0 {
                o / (b - a)
            } else {
                0.0
            }
        }
        Spec::Pert { .. } => 0.0,
        Spec::Triangular { a, b, c } => {
            if x == *c {
                2.0 / (b - a)
            } else {
                0.0
            }
        }
        Spec::Uniform { a, b } => 1.0 / (b - a),
        Spec::Exponential { lambda } => *lambda,
        Spec::Gamma { k, theta } => {
            if *k < 1.0 {
                f64::INFINITY
            } else if *k == 1.0 {
                1.0 / theta
            } else {
                0.0
            }
        }
        Spec::Lognormal { .. } => 0.0,
        _ => return Ok(()),
    };
    ctx.label("endpoint");
    // The origin of a gamma density may be left out (open support).
    if matches!(spec, Spec::Gamma { .. }) && f == 0.0 {
        return Ok(());
    }
    let ok = if f == limit {
        true
    } else if limit.is_finite() {
        // Through the logarithm of the beta function of the other shape.
        let l = match spec {
            Spec::Beta { alpha, beta, .. } => alpha.max(*beta) * (2.0 + alpha.max(*beta).ln().abs()),
            _ => 0.0,
        };
        (f - limit).abs() <= EPS * limit * (64.0 + 8.0 * limit.abs().ln().abs() + 8.0 * l)
    } else {
        f == limit || f > 1e6
    };
    ensure(ok, || format!("endpoint: density({:e}) = {:e}, expected {:e}", x, f, limit))
}

pub fn p03() -> Property {
    Property {
        id: "P03",
        rule: "random continuous distribution (also wild: parameters many orders of magnitude apart; and vast: shapes of 1e-30 to 1e9), three points including endpoints, far tails and outside; non-trivial when an interior point has density above e^-30",
        families: vec![
            Family { name: "density", strategy: || with_points(continuous(), 3), oracle: density, quick: 1_500_000, thorough: 75_000_000, chunk: 1000 },
            Family { name: "vast", strategy: || with_points(vast().prop_filter("digits", digits).boxed(), 3), oracle: density, quick: 300_000, thorough: 15_000_000, chunk: 1000 },
            Family { name: "wild", strategy: || with_points(wild(), 3), oracle: density, quick: 500_000, thorough: 25_000_000, chunk: 1000 },
        ],
    }
}

// --- P04: the density is the derivative of the CDF ------------------------

const GL_X: [f64; 10] = [
    0.076526521133497333755, 0.227785851141645078080, 0.373706088715419560673, 0.510867001950827098004,
    0.636053680726515025453, 0.746331906460150792614, 0.839116971822218823395, 0.912234428251325905868,
    0.963971927277913791268, 0.993128599185094924786,
];
const GL_W: [f64; 10] = [
    0.152753387130725850698, 0.149172986472603746788, 0.142096109318382051329, 0.131688638449176626898,
    0.118194531961518417312, 0.101930119817240435037, 0.083276741576704748725, 0.062672048334109063570,
    0.040601429800386941331, 0.017614007139152118312,
];

fn gauss(f: &dyn Fn(f64) -> f64, a: f64, b: f64) -> f64 {
    let (c, h) = (0.5 * (a + b), 0.5 * (b - a));
    let mut s = 0.0;
    for i in 0..10 {
        s += GL_W[i] * (f(c - h * GL_X[i]) + f(c + h * GL_X[i]));
    }
    s * h
}

fn adaptive(f: &dyn Fn(f64) -> f64, a: f64, b: f64, depth: u32, fuel: &mut u32) -> (f64, f64) {
    let whole = gauss(f, a, b);
    let m = 0.5 * (a + b);
    let (l, r) = (gauss(f, a, m), gauss(f, m, b));
    let e = (l + r - whole).abs();
    *fuel = fuel.saturating_sub(1);
    if e <= 1e-13 * (l + r).abs() {
        return (l + r, e);
    }
    if depth == 0 || *fuel == 0 {
        // Next to a singularity every further level would add its share.
        return (l + r, 20.0 * e);
    }
    let (p, q) = (adaptive(f, a, m, depth - 1, fuel), adaptive(f, m, b, depth - 1, fuel));
    (p.0 + q.0, p.1 + q.1)
}

fn derivative(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let mut xs: Vec<f64> = c.xs.iter().copied().filter(|x| x.is_finite() && x.abs() < 1e12).collect();
    if xs.len() < 2 {
        return Ok(());
    }
    xs.sort_by(|p, q| p.partial_cmp(q).unwrap());
    let (x0, x1) = (xs[0], xs[xs.len() - 1]);
    let (a, b) = c.spec.support();
    let (mut lo, mut hi) = (x0.max(a), x1.min(b));
    if let Some((_, _, a, b)) = refm::beta_like(&c.spec) {
        // Within an ulp of the end of the unit interval the argument itself
        // rounds to the endpoint.
        hi = hi.min((b - (b - a) * (1e-12 * (1.0 + (a.f().abs() + b.f().abs()) / (b - a).f()))).f());
    }
    if !(lo < hi) {
        return Ok(());
    }
    // Stay away from poles: what is next to them is P02's and P03's.
    let pole = |x: f64| !(d.density(x).unwrap() < 1e300);
    let margin = 1e-3 * (hi - lo);
    let coarse = hi - lo < 1e-9 * lo.abs().max(hi.abs());
    if coarse && (pole(lo) || pole(next_up(lo)) || pole(hi) || pole(next_down(hi))) {
        return Ok(());
    }
    if pole(lo) || pole(next_up(lo)) {
        lo += margin;
    }
    if pole(hi) || pole(next_down(hi)) {
        hi -= margin;
    }
    if !(hi - lo > 64.0 * EPS * lo.abs().max(hi.abs()) + 1e-290) {
        return Ok(());
    }
    // Outside the support the CDF must not move.
    let (x0, x1) = (if x0 < lo && x0 >= a { lo } else { x0 }, if x1 > hi && x1 <= b { hi } else { x1 });
    let (x0, x1) = (if x0 < lo && lo > a { lo } else { x0 }, if x1 > hi && hi < b { hi } else { x1 });
    // Split at the seams.
    let w = hi - lo;
    let mut cuts = vec![lo];
    for m in landmarks(&c.spec) {
        if m > lo && m < hi {
            cuts.push(m);
        }
    }
    cuts.push(hi);
    cuts.sort_by(|p, q| p.partial_cmp(q).unwrap());
    let f = |x: f64| d.density(x).unwrap();
    let (mut integral, mut err) = (0.0, 0.0);
    let mut covered = true;
    let mut fuel = 2000;
    for p in cuts.windows(2) {
        // Narrow laws inside a wide interval: walk outward in spreads.
        let (c0, s) = c.spec.aim();
        let mut sub = vec![p[0]];
        let s = if s > 0.0 && s.is_finite() { s } else { w };
        for j in [-50.0, -12.0, -6.0, -3.0, -1.0, 0.0, 1.0, 3.0, 6.0, 12.0, 50.0] {
            let x = c0 + s * j;
            if x > p[0] && x < p[1] {
                sub.push(x);
            }
        }
        if let Spec::Lognormal { mu, sigma } = &c.spec {
            // Spreads of the logarithm.
            for j in -12..=12 {
                let x = (mu + sigma * j as f64).exp();
                if x > p[0] && x < p[1] {
                    sub.push(x);
                }
            }
            sub.sort_by(|x, y| x.partial_cmp(y).unwrap());
        }
        if p[1] - p[0] > 100.0 * s {
            // Long intervals: decades from either end, or the rule may step
            // over where the law is.
            for j in 1..16 {
                let e = (p[1] - p[0]) * 10f64.powi(-j);
                for x in [p[0] + e, p[1] - e] {
                    if x > p[0] && x < p[1] {
                        sub.push(x);
                    }
                }
            }
            sub.sort_by(|x, y| x.partial_cmp(y).unwrap());
        }
        sub.push(p[1]);
        for q in sub.windows(2) {
            let (i, e) = adaptive(&f, q[0], q[1], 14, &mut fuel);
            integral += i;
            err += e;
        }
        covered &= integral.is_finite();
    }
    ensure(covered, || format!("integral: the density does not integrate over [{:e}, {:e}]", lo, hi))?;
    let want = d.cdf(x1) - d.cdf(x0);
    // The quadrature estimates its own error; rounding of both sides is
    // bounded as in P02 and P03.
    let t0 = refm::cdf(&c.spec, x0);
    let t1 = refm::cdf(&c.spec, x1);
    let mut cond: f64 = 0.0;
    for &x in &cuts {
        if x > a && x < b {
            let k = refm::ln_density(&c.spec, x);
            cond = cond.max(density_rel(&c.spec, x, k.1.min(1e4)).min(1e-9));
        }
    }
    // Quadrature nodes are rounded to the grid of doubles at |x|.
    let spread = c.spec.aim().1.abs().max(1e-300);
    cond += EPS * lo.abs().max(hi.abs()) / spread.min(w) * 8.0;
    let tol = 60.0 * err + 4.0 * (cdf_tol(&c.spec, x0, &t0) + cdf_tol(&c.spec, x1, &t1)) + (4.0 * cond + 1e-9) * integral + 1e-14;
    if !(tol <= 1e-6) {
        ctx.label("inconclusive");
        return Ok(());
    }
    ctx.nontrivial = want > 1e-6;
    let diff = (integral - want).abs();
    ctx.ratio(&format!("integral/{}", c.spec.name()), diff / tol);
    ensure(diff <= tol, || {
        format!("integral: over [{:e}, {:e}] the density integrates to {:e} but the CDF rises by {:e} (allowed {:.1e})", x0, x1, integral, want, tol)
    })
}

pub fn p04() -> Property {
    Property {
        id: "P04",
        rule: "random continuous distribution (one in five wild) and interval; adaptive Gauss-Legendre quadrature of the density against the CDF difference; non-trivial when the interval holds more than 1e-6 and the quadrature settles",
        families: vec![Family { name: "derivative", strategy: || with_points(prop_oneof![4 => continuous(), 1 => wild_plain()].boxed(), 2), oracle: derivative, quick: 160_000, thorough: 8_000_000, chunk: 250 }],
    }
}

// --- P05: masses ---------------------------------------------------------

fn mass_rel(spec: &Spec, k: u64) -> f64 {
    match spec {
        Spec::Bernoulli { .. } | Spec::BernoulliF { .. } => 2.0 * EPS,
        Spec::Categorical { .. } => 2.0 * EPS,
        _ => {
            let n = refm::trials(spec) as f64;
            let (p, q) = refm::pq(spec);
            // Parameters rounded by one part in 2^53 move k ln p and
            // (n - k) ln q by this much; the deviance terms add their size.
            let (np, nq) = (n * p.f(), n * q.f());
            let k = k as f64;
            if k == 0.0 || k == n {
                // A power of whichever of the two is not rounded.
                let l = if k == 0.0 { refm::ln_prob(q, p) } else { refm::ln_prob(p, q) };
                return EPS * (16.0 + 4.0 * n * l.f().abs());
            }
            let dev = |x: f64, m: f64| if x == 0.0 { m } else { (x * (x / m).ln() + m - x).abs() };
            EPS * (40.0 + 4.0 * (k - np).abs() * (1.0 + 1.0) + 4.0 * (dev(k, np) + dev(n - k, nq)))
        }
    }
}

/// Finding `binomial-stirlerr-11`: the table of Stirling corrections has
/// swapped digits at eleven. Some(mass without it) if `m` is off by exactly
/// that.
pub const STIRLERR: &str = "binomial-stirlerr-11";

pub fn stirlerr_count(n: u64, k: u64) -> i32 {
    if k == 0 || k >= n {
        return 0;
    }
    (n == 11) as i32 - (k == 11) as i32 - (n - k == 11) as i32
}

pub fn stirlerr_factor(n: u64, k: u64) -> f64 {
    (stirlerr_count(n, k) as f64 * (7.757367548795184079e-3 - 7.5736754879518407950e-3)).exp()
}

fn repaired(n: u64, k: u64, m: f64, want: DD, tol: f64) -> Option<f64> {
    if stirlerr_count(n, k) == 0 || distance(m, want) <= tol {
        return None;
    }
    let v = m / stirlerr_factor(n, k);
    if distance(v, want) <= 2.0 * tol + 4.0 * EPS * v {
        Some(want.f())
    } else {
        None
    }
}

fn mass_points(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let (_, b) = c.spec.support();
    beyond(&d, b as u64, c)?;
    for &x in &c.xs {
        if !(x >= 0.0) || x > 1e15 {
            continue;
        }
        let k = x.floor() as u64;
        if let Spec::Categorical { p } = &c.spec {
            // Categories beyond the last are a documented precondition.
            if (k as usize) < p.len() {
                let m = d.mass(k).unwrap();
                ensure(m == p[k as usize], || format!("mass: mass({}) = {:e}, given {:e}", k, m, p[k as usize]))?;
                ctx.nontrivial |= m > 0.0 && m < 1.0;
            }
            continue;
        }
        let m = d.mass(k).unwrap();
        ensure(!m.is_nan(), || format!("nan: mass({}) is NaN", k))?;
        ensure(m >= 0.0 && m <= 1.0 + 1e-9, || format!("range: mass({}) = {:e}", k, m))?;
        if k as f64 > b {
            ensure(m == 0.0, || format!("support: mass({}) = {:e} outside the support", k, m))?;
            ctx.label("outside");
            continue;
        }
        let (p, q) = refm::pq(&c.spec);
        let n = refm::trials(&c.spec);
        let l = refm::ln_binomial_mass(n, p, q, k);
        if l.hi < -690.0 {
            ensure(m <= 1e-290, || format!("mass: mass({}) = {:e}, expected below 1e-290", k, m))?;
            continue;
        }
        ctx.nontrivial |= l.hi > -40.0 && l.hi < -1e-12;
        let want = l.exp();
        let tol = mass_rel(&c.spec, k) * want.f() + 1e-300;
        let m = match repaired(n, k, m, want, tol) {
            Some(v) => {
                ctx.finding(STIRLERR, format!("mass({}) = {:e}, expected {:e}", k, m, want.f()));
                v
            }
            None => m,
        };
        close(ctx, "mass", &c.spec, m, want, tol).map_err(|e| format!("{} at k = {}", e, k))?;
    }
    Ok(())
}

/// Nothing above the support is possible, however far.
fn beyond(d: &Dist, b: u64, c: &Case) -> Result<(), String> {
    match c.spec {
        Spec::Categorical { .. } => return Ok(()),
        Spec::Bernoulli { .. } | Spec::BernoulliF { .. } => {
            for k in 2..=255 {
                let m = d.mass(k).unwrap();
                ensure(m == 0.0, || format!("support: mass({}) = {:e} outside the support", k, m))?;
            }
        }
        _ => {
            let b = b.max(refm::trials(&c.spec));
            let j = hash64(&c.xs.first().map_or(0, |x| x.to_bits()).to_le_bytes()) % 64;
            for k in [b.saturating_add(1), b.saturating_add(1 << j), b.wrapping_add(1).wrapping_neg(), u64::MAX - j] {
                let m = d.mass(k).unwrap();
                ensure(k <= b || m == 0.0, || format!("support: mass({}) = {:e} outside the support", k, m))?;
            }
        }
    }
    Ok(())
}

/// Partial sums of the masses against the CDF, over the whole support when it
/// is small and over a window around a generated place otherwise.
fn mass_sums(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.spec.build();
    let (_, b) = c.spec.support();
    let b = b as u64;
    let (first, last) = if b <= 400 {
        (0, b)
    } else {
        let (m, s) = c.spec.aim();
        let x = c.xs.first().copied().filter(|x| x.is_finite()).unwrap_or(m);
        let x = x.max(m - 6.0 * s - 4.0).min(m + 6.0 * s + 4.0).max(0.0).min(b as f64) as u64;
        (x.saturating_sub(100), (x + 100).min(b))
    };
    let base = if first == 0 { 0.0 } else { d.cdf(first as f64 - 1.0) };
    ensure(base.is_finite(), || format!("nan: F({}) = {:e}", first - 1, base))?;
    let mut top = if first == 0 { 0.0 } else { d.mass(first - 1).unwrap() };
    let mut sum = ZERO;
    let n = b as f64;
    for k in first..=last {
        let mut m = d.mass(k).unwrap();
        if matches!(c.spec, Spec::Binomial { .. } | Spec::BinomialF { .. }) && stirlerr_count(b, k) != 0 && m > 0.0 {
            let (p, q) = refm::pq(&c.spec);
            let want = refm::ln_binomial_mass(b, p, q, k).exp();
            if let Some(v) = repaired(b, k, m, want, 1e-11 * m) {
                ctx.finding(STIRLERR, format!("mass({}) = {:e}, expected {:e}", k, m, want.f()));
                m = v;
            }
        }
        ensure(m >= 0.0, || format!("nan: mass({}) = {:e}", k, m))?;
        sum = sum + m;
        top = top.max(m);
        let f = d.cdf(k as f64);
        let want = sum + base;
        let tol = match &c.spec {
            Spec::Categorical { p } => {
                let total = p.iter().fold(ZERO, |s, &v| s + v);
                EPS * (p.len() as f64 + 2.0) + 2.0 * (total - 1.0).hi.abs()
            }
            _ => {
                let small = |v: f64| v.min(1.0 - v).max(0.0);
                let cond = 4.0 * n * (2.0 + n.max(2.0).ln());
                EPS * (200.0 + 80.0 * n.sqrt() + cond * (small(want.f()) + small(base)) + 8.0 * n * top)
            }
        };
        close(ctx, "partial sum", &c.spec, f, want, tol).map_err(|e| format!("{} at k = {}", e, k))?;
    }
    if first == 0 && last == b {
        ctx.label("whole support");
        let tol = EPS * (1000.0 + 40.0 * n) + if let Spec::Categorical { .. } = c.spec { 1e-12 } else { 0.0 };
        close(ctx, "total", &c.spec, sum.f(), ONE, tol)?;
    }
    ctx.nontrivial = last > first && sum.f() > 1e-9;
    Ok(())
}

pub fn p05() -> Property {
    Property {
        id: "P05",
        rule: "random discrete distribution; masses at three points against the reference (also n to 1e15), and running sums of masses against the CDF over the whole support (or a window of 200); non-trivial when some mass is strictly between 0 and 1",
        families: vec![
            Family { name: "mass", strategy: || with_points(discrete(), 3), oracle: mass_points, quick: 1_200_000, thorough: 60_000_000, chunk: 1000 },
            Family { name: "rare", strategy: || with_points(rare(), 3), oracle: mass_points, quick: 400_000, thorough: 20_000_000, chunk: 1000 },
            Family { name: "large", strategy: || with_points(large(), 3), oracle: mass_points, quick: 400_000, thorough: 20_000_000, chunk: 1000 },
            Family { name: "sums", strategy: || with_points(discrete(), 1), oracle: mass_sums, quick: 96_000, thorough: 4_800_000, chunk: 100 },
            Family { name: "long", strategy: || with_points(long(), 1), oracle: mass_sums, quick: 1_200, thorough: 60_000, chunk: 10 },
        ],
    }
}
