//! The driver: generates cases with proptest, evaluates the oracle, shrinks a
//! failure, writes the replay file and the evidence.

use crate::gen::{valid, Case, S};
use crate::spec::Spec;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What an oracle records about a case.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub ratios: Vec<(String, f64)>,
    /// Deviations with the exact signature of a recorded finding. Unless the
    /// finding is listed for this property, they count as a failure.
    pub known: Vec<(&'static str, String)>,
    /// Work units beyond one (samples drawn, for statistical oracles).
    pub draws: u64,
}

impl Ctx {
    pub fn ratio(&mut self, key: &str, r: f64) {
        self.ratios.push((key.to_string(), r));
    }
    pub fn finding(&mut self, id: &'static str, what: String) {
        self.known.push((id, what));
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
}

pub type Oracle = fn(&Case, &mut Ctx) -> Result<(), String>;

pub struct Family {
    pub name: &'static str,
    pub strategy: fn() -> S<Case>,
    pub oracle: Oracle,
    pub quick: usize,
    pub thorough: usize,
    /// Cases per unit of parallel work.
    pub chunk: usize,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub families: Vec<Family>,
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Pass,
    Known(&'static str, String),
    Fail(String),
    Broken(String),
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, at)));
    }));
}

/// Raised by scripted sources when sampling reads without end.
pub const FUEL: &str = "sampling did not terminate: source fuel exhausted";

pub struct Findings {
    pub open: Vec<(String, String, String)>,
}

impl Findings {
    pub fn load(path: &str) -> Findings {
        let mut open = vec![];
        if let Ok(text) = std::fs::read_to_string(path) {
            for line in text.lines() {
                if let Some(rest) = line.strip_prefix("open: ") {
                    let mut it = rest.splitn(3, ' ');
                    let id = it.next().unwrap_or("").to_string();
                    let prop = it.next().unwrap_or("").trim_start_matches("property=").to_string();
                    let what = it.next().unwrap_or("").to_string();
                    open.push((id, prop, what));
                }
            }
        }
        Findings { open }
    }
    fn listed(&self, id: &str, prop: &str) -> bool {
        self.open.iter().any(|(i, p, _)| i == id && p == prop)
    }
}

pub fn evaluate(oracle: Oracle, case: &Case, ctx: &mut Ctx, prop: &str, findings: &Findings) -> Outcome {
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| oracle(case, ctx)));
    match r {
        Ok(Ok(())) => match ctx.known.iter().find(|(k, _)| !findings.listed(k, prop)) {
            Some((_, m)) => Outcome::Fail(m.clone()),
            None => match ctx.known.first() {
                Some((k, m)) => Outcome::Known(k, m.clone()),
                None => Outcome::Pass,
            },
        },
        Ok(Err(m)) => Outcome::Fail(m),
        Err(_) => {
            let (msg, at) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if msg == FUEL {
                Outcome::Fail(msg)
            } else if at.starts_with("src/") {
                Outcome::Broken(format!("harness panic at {}: {}", at, msg))
            } else {
                Outcome::Fail(format!("panic: {} ({})", msg, at))
            }
        }
    }
}

/// Runs `f`; a panic comes back as its message.
pub fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let r = catch_unwind(AssertUnwindSafe(f));
    let p = PANIC.with(|p| p.borrow_mut().take());
    r.map_err(|_| p.map(|(m, at)| format!("{} at {}", m, at)).unwrap_or_default())
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash64(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &b in bytes {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut s = h;
    splitmix(&mut s)
}

fn runner_for(seed: u64, prop: &str, family: &str, chunk: usize) -> TestRunner {
    let mut s = hash64(format!("{}/{}/{}/{}", seed, prop, family, chunk).as_bytes());
    let mut bytes = [0u8; 32];
    for i in 0..4 {
        bytes[8 * i..8 * i + 8].copy_from_slice(&splitmix(&mut s).to_le_bytes());
    }
    let config = Config { failure_persistence: None, ..Config::default() };
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
}

// --- text form -----------------------------------------------------------

fn bits(v: &[f64]) -> String {
    v.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(" ")
}

pub fn describe(case: &Case) -> String {
    let mut s = match &case.spec {
        Spec::Categorical { p } if p.len() > 40 => {
            let show = |v: &[f64]| v.iter().map(|v| format!("{:?}", v)).collect::<Vec<_>>().join(", ");
            format!("Categorical {{ p: [{}, … {} more …, {}] }}", show(&p[..10]), p.len() - 20, show(&p[p.len() - 10..]))
        }
        s => format!("{:?}", s),
    };
    if !case.xs.is_empty() {
        s += &format!(" xs={:?}", case.xs);
    }
    if !case.ns.is_empty() {
        let show: Vec<_> = case.ns.iter().take(12).collect();
        s += &format!(" ns={:?}{}", show, if case.ns.len() > 12 { "…" } else { "" });
    }
    s
}

pub fn to_text(prop: &str, family: &str, case: &Case, message: &str) -> String {
    let mut p = case.spec.params();
    // Trial counts are kept as integers.
    let n = match &case.spec {
        Spec::Binomial { n, .. } | Spec::BinomialF { n, .. } => {
            p.remove(0);
            n.to_string()
        }
        _ => "-".to_string(),
    };
    format!(
        "property {}\nfamily {}\nspec {} {} {}\nxs {}\nns {}\n# {}\n# {}\n",
        prop,
        family,
        case.spec.name(),
        n,
        bits(&p),
        bits(&case.xs),
        case.ns.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(" "),
        describe(case).replace('\n', " "),
        message.replace('\n', " ")
    )
}

/// Parses one or more cases: (property, family, case).
pub fn from_text(text: &str) -> Vec<(String, String, Case)> {
    let mut out = vec![];
    let (mut prop, mut family, mut spec, mut xs) = (String::new(), String::new(), None, vec![]);
    let unbits = |it: std::str::SplitWhitespace| -> Vec<f64> {
        it.map(|t| {
            if t.len() == 16 && t.bytes().all(|b| b.is_ascii_hexdigit()) {
                f64::from_bits(u64::from_str_radix(t, 16).unwrap())
            } else {
                t.parse().expect("a number")
            }
        })
        .collect()
    };
    for line in text.lines() {
        let mut it = line.split_whitespace();
        match it.next() {
            Some("property") => prop = it.next().unwrap_or("").to_string(),
            Some("family") => family = it.next().unwrap_or("").to_string(),
            Some("spec") => {
                let name = it.next().expect("a distribution").to_string();
                let n = it.next().expect("a count or -").to_string();
                let p = unbits(it);
                spec = if n == "-" {
                    Spec::from_params(&name, &p)
                } else {
                    let n: u64 = n.parse().expect("a count");
                    Some(if name == "binomial" {
                        Spec::Binomial { n, p: p[0] }
                    } else {
                        Spec::BinomialF { n, q: p[0] }
                    })
                };
            }
            Some("xs") => xs = unbits(it),
            Some("ns") => {
                let ns = it.map(|t| t.parse().expect("an integer")).collect();
                let spec = spec.take().expect("a spec line");
                out.push((prop.clone(), family.clone(), Case { spec, xs: std::mem::take(&mut xs), ns }));
            }
            _ => {}
        }
    }
    out
}

// --- shrinking -----------------------------------------------------------

fn tag(m: &str) -> &str {
    m.split(':').next().unwrap_or(m)
}

fn rounder(v: f64) -> Vec<f64> {
    let mut out = vec![];
    if !v.is_finite() || v == 0.0 {
        return out;
    }
    for c in [0.0, 1.0, 0.5, 2.0, v.trunc(), v.round(), -1.0] {
        if c != v {
            out.push(c);
        }
    }
    for digits in 0..6usize {
        let c: f64 = format!("{:.*e}", digits, v).parse().unwrap();
        if c != v {
            out.push(c);
        }
    }
    out
}

fn neighbours(case: &Case) -> Vec<Case> {
    let mut out = vec![];
    // Drop whole elements.
    for i in 0..case.xs.len() {
        if case.xs.len() > 1 {
            let mut c = case.clone();
            c.xs.remove(i);
            out.push(c);
        }
    }
    if case.ns.len() > 1 {
        let mut c = case.clone();
        c.ns.truncate(case.ns.len() / 2);
        out.push(c);
        let mut c = case.clone();
        c.ns.pop();
        out.push(c);
    }
    match &case.spec {
        Spec::Binomial { n, p } => {
            for m in [n / 2, n - n / 10, n.saturating_sub(1)] {
                if m != *n {
                    out.push(Case { spec: Spec::Binomial { n: m, p: *p }, ..case.clone() });
                }
            }
        }
        Spec::BinomialF { n, q } => {
            for m in [n / 2, n - n / 10, n.saturating_sub(1)] {
                if m != *n {
                    out.push(Case { spec: Spec::BinomialF { n: m, q: *q }, ..case.clone() });
                }
            }
        }
        // One category fewer each is too many candidates.
        Spec::Categorical { p } if p.len() > 300 => {
            for parts in [2, 4, 16] {
                let step = (p.len() + parts - 1) / parts;
                for i in (0..p.len()).step_by(step) {
                    let j = (i + step).min(p.len());
                    let r: f64 = p[i..j].iter().sum();
                    let mut v = p[..i].to_vec();
                    v.push(r.min(1.0));
                    v.extend(&p[j..]);
                    if v.len() < p.len() {
                        out.push(Case { spec: Spec::Categorical { p: v }, ..case.clone() });
                    }
                }
            }
        }
        Spec::Categorical { p } if p.len() > 1 => {
            for i in 0..p.len() {
                let mut v = p.clone();
                let r = v.remove(i);
                let j = i.min(v.len() - 1);
                v[j] += r;
                out.push(Case { spec: Spec::Categorical { p: v }, ..case.clone() });
            }
        }
        _ => {}
    }
    let params = case.spec.params();
    if !matches!(case.spec, Spec::Categorical { .. }) {
        for (i, &v) in params.iter().enumerate() {
            for c in rounder(v) {
                let mut q = params.clone();
                q[i] = c;
                if let Some(spec) = Spec::from_params(case.spec.name(), &q) {
                    if valid(&spec) && spec != case.spec {
                        out.push(Case { spec, ..case.clone() });
                    }
                }
            }
        }
    }
    for i in 0..case.xs.len() {
        for c in rounder(case.xs[i]) {
            let mut d = case.clone();
            d.xs[i] = c;
            out.push(d);
        }
    }
    for i in 0..case.ns.len().min(8) {
        for c in [0, 1, case.ns[i] / 2] {
            if c < case.ns[i] {
                let mut d = case.clone();
                d.ns[i] = c;
                out.push(d);
            }
        }
    }
    out.retain(|c| valid(&c.spec));
    out
}

/// How complicated a case looks: the length of its decimal form.
fn weight(c: &Case) -> usize {
    let f = |v: &f64| format!("{:e}", v).len();
    c.spec.params().iter().map(f).sum::<usize>()
        + c.xs.iter().map(f).sum::<usize>()
        + c.ns.iter().map(|n| n.to_string().len() + 1).sum::<usize>()
}

fn polish(mut case: Case, mut msg: String, test: &mut dyn FnMut(&Case) -> Option<String>) -> (Case, String) {
    let mut budget = 600;
    let started = Instant::now();
    loop {
        let mut improved = false;
        let mut next = neighbours(&case);
        next.sort_by_cached_key(weight);
        for c in next {
            if weight(&c) >= weight(&case) {
                continue;
            }
            if budget == 0 || started.elapsed() > Duration::from_secs(60) {
                return (case, msg);
            }
            budget -= 1;
            if let Some(m) = test(&c) {
                if tag(&m) == tag(&msg) {
                    case = c;
                    msg = m;
                    improved = true;
                    break;
                }
            }
        }
        if !improved {
            return (case, msg);
        }
    }
}

// --- running -------------------------------------------------------------

#[derive(Default)]
struct Tally {
    evaluations: u64,
    draws: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    ratios: BTreeMap<String, (f64, String)>,
    samples: BTreeMap<String, Vec<String>>,
    known: BTreeMap<&'static str, (u64, String)>,
}

impl Tally {
    fn absorb(&mut self, o: Tally) {
        self.evaluations += o.evaluations;
        self.draws += o.draws;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.ratios {
            let e = self.ratios.entry(k).or_insert((0.0, String::new()));
            if v.0 > e.0 {
                *e = v;
            }
        }
        for (k, v) in o.samples {
            let e = self.samples.entry(k).or_default();
            for s in v {
                if e.len() < 3 {
                    e.push(s);
                }
            }
        }
        for (k, v) in o.known {
            let e = self.known.entry(k).or_insert((0, String::new()));
            e.0 += v.0;
            if e.1.is_empty() {
                e.1 = v.1;
            }
        }
    }
    fn record(&mut self, family: &str, case: &Case, ctx: Ctx, outcome: &Outcome, nth: u64) {
        self.evaluations += 1;
        self.draws += ctx.draws;
        let text = describe(case);
        if ctx.nontrivial {
            self.distinct.insert(hash64(
                format!("{}|{}|{}|{}|{:?}", family, case.spec.name(), bits(&case.spec.params()), bits(&case.xs), case.ns).as_bytes(),
            ));
            let e = self.samples.entry(family.to_string()).or_default();
            if e.len() < 3 && nth % 7 == 3 {
                e.push(text.clone());
            }
        }
        *self.labels.entry(format!("{}/{}", family, case.spec.name())).or_default() += 1;
        for l in ctx.labels {
            *self.labels.entry(format!("{}:{}", family, l)).or_default() += 1;
        }
        for (k, r) in ctx.ratios {
            let e = self.ratios.entry(k).or_insert((-1.0, String::new()));
            if r > e.0 || r.is_nan() {
                *e = (r, text.clone());
            }
        }
        if let Outcome::Known(k, m) = outcome {
            let e = self.known.entry(k).or_insert((0, String::new()));
            e.0 += 1;
            if e.1.is_empty() {
                e.1 = format!("{} [{}]", m, text);
            }
        }
    }
}

struct Failure {
    order: (usize, usize),
    family: &'static str,
    case: Case,
    message: String,
}

/// What each worker is evaluating right now, for the hang watchdog.
#[derive(Default, Clone)]
struct Slot {
    tid: String,
    case: Option<(&'static str, Case)>,
    cpu0: u64,
    serial: u64,
}

fn cpu_ticks(tid: &str) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let r = s.rsplit_once(')')?.1;
    let f: Vec<&str> = r.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

fn my_tid() -> String {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().to_string()))
        .unwrap_or_default()
}

/// CPU seconds after which one evaluation counts as not terminating. The
/// slowest legitimate case takes about a thousandth of this (or, for the
/// statistical oracles, a twentieth).
pub const HANG_CPU_SECONDS: u64 = 60;

pub struct Options {
    pub seed: u64,
    pub thorough: bool,
    pub calibrate: bool,
    pub only: Option<String>,
    pub scale: f64,
    pub verif: String,
}

pub fn run(prop: &'static Property, opt: &Options) -> i32 {
    let t0 = Instant::now();
    let findings = Arc::new(Findings::load(&format!("{}/known_findings.txt", opt.verif)));
    let families: Vec<&'static Family> = prop
        .families
        .iter()
        .filter(|f| opt.only.as_deref().is_none_or(|o| o == f.name))
        .collect();

    // Saved regressions run first.
    let mut total = Tally::default();
    let regressions = from_text(include_str!("../regressions.txt"));
    let mut tasks: Vec<(usize, usize, Vec<Case>, usize)> = vec![];
    for (fi, f) in families.iter().enumerate() {
        let fixed: Vec<Case> = regressions
            .iter()
            .filter(|(p, n, _)| p == prop.id && n == f.name)
            .map(|r| r.2.clone())
            .collect();
        if !fixed.is_empty() {
            tasks.push((fi, 0, fixed, 0));
        }
        // Sampling fits (one law each) take their own time.
        let n = ((if opt.thorough { f.thorough } else if f.chunk > 1 { 2 * f.quick } else { f.quick }) as f64 * opt.scale).ceil() as usize;
        let mut left = n;
        let mut i = 1;
        while left > 0 {
            let c = left.min(f.chunk);
            tasks.push((fi, i, vec![], c));
            left -= c;
            i += 1;
        }
    }
    let tasks = Arc::new(tasks);
    let next = Arc::new(AtomicUsize::new(0));
    let best = Arc::new(AtomicUsize::new(usize::MAX));
    let failures: Arc<Mutex<Vec<Failure>>> = Arc::default();
    let broken: Arc<Mutex<Vec<String>>> = Arc::default();
    let done = Arc::new(AtomicUsize::new(0));
    let calibrate = opt.calibrate;
    let stop = Arc::new(AtomicBool::new(false));
    const THREADS: usize = 8;
    let slots: Arc<Vec<Mutex<Slot>>> = Arc::new((0..THREADS).map(|_| Mutex::new(Slot::default())).collect());
    let totals: Arc<Mutex<Vec<(usize, Tally)>>> = Arc::default();
    let seed = opt.seed;
    for w in 0..THREADS {
        let (tasks, next, best, failures, broken, done, slots, totals, stop, findings) = (
            tasks.clone(),
            next.clone(),
            best.clone(),
            failures.clone(),
            broken.clone(),
            done.clone(),
            slots.clone(),
            totals.clone(),
            stop.clone(),
            findings.clone(),
        );
        let families = families.clone();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let tid = my_tid();
                slots[w].lock().unwrap().tid = tid.clone();
                let enter = |f: &'static str, c: &Case| {
                    let cpu0 = cpu_now();
                    let mut s = slots[w].lock().unwrap();
                    s.case = Some((f, c.clone()));
                    s.cpu0 = cpu0;
                    s.serial += 1;
                };
                let leave = || slots[w].lock().unwrap().case = None;
                loop {
                    let t = next.fetch_add(1, Ordering::SeqCst);
                    if t >= tasks.len() || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    // Later work than a known failure need not run.
                    if t > best.load(Ordering::SeqCst) {
                        continue;
                    }
                    let (fi, chunk, fixed, count) = &tasks[t];
                    let f = families[*fi];
                    let mut tally = Tally::default();
                    let mut test = |c: &Case| -> (Outcome, Ctx) {
                        enter(f.name, c);
                        let mut ctx = Ctx::default();
                        let t0 = Instant::now();
                        let o = evaluate(f.oracle, c, &mut ctx, prop.id, &findings);
                        if calibrate {
                            ctx.ratio(&format!("ms/{}/{}", f.name, c.spec.name()), t0.elapsed().as_secs_f64() * 1e3);
                        }
                        leave();
                        (o, ctx)
                    };
                    let mut fail: Option<(Case, String)> = None;
                    for (i, c) in fixed.iter().enumerate() {
                        let (o, ctx) = test(c);
                        tally.record(f.name, c, ctx, &o, i as u64);
                        match o {
                            Outcome::Fail(m) => {
                                if calibrate {
                                    println!("  FAIL {} {} :: {}", f.name, m, describe(c));
                                    continue;
                                }
                                fail = Some((c.clone(), m));
                                break;
                            }
                            Outcome::Broken(m) => broken.lock().unwrap().push(format!("{} [{}]", m, describe(c))),
                            _ => {}
                        }
                    }
                    if fail.is_none() && *count > 0 {
                        let mut runner = runner_for(seed, prop.id, f.name, *chunk);
                        let strategy = (f.strategy)();
                        for i in 0..*count {
                            if stop.load(Ordering::SeqCst) {
                                break;
                            }
                            let mut tree = match strategy.new_tree(&mut runner) {
                                Ok(t) => t,
                                Err(e) => {
                                    broken.lock().unwrap().push(format!("generator: {}", e));
                                    break;
                                }
                            };
                            let c = tree.current();
                            let (o, ctx) = test(&c);
                            tally.record(f.name, &c, ctx, &o, i as u64);
                            match o {
                                Outcome::Fail(m) => {
                                    if calibrate {
                                        println!("  FAIL {} {} :: {}", f.name, m, describe(&c));
                                        continue;
                                    }
                                    // Shrink along proptest's tree, keeping the same kind of failure.
                                    let (mut worst, mut msg) = (c, m);
                                    let mut steps = 0;
                                    let started = Instant::now();
                                    if f.chunk > 1 && tree.simplify() {
                                        loop {
                                            steps += 1;
                                            if steps > 1500 || started.elapsed() > Duration::from_secs(60) {
                                                break;
                                            }
                                            let c = tree.current();
                                            let failed = match test(&c).0 {
                                                Outcome::Fail(m) if tag(&m) == tag(&msg) => Some(m),
                                                _ => None,
                                            };
                                            if let Some(m) = failed {
                                                worst = c;
                                                msg = m;
                                                if !tree.simplify() {
                                                    break;
                                                }
                                            } else if !tree.complicate() {
                                                break;
                                            }
                                        }
                                    }
                                    if f.chunk > 1 {
                                        let mut again = |c: &Case| match test(c).0 {
                                            Outcome::Fail(m) => Some(m),
                                            _ => None,
                                        };
                                        let r = polish(worst, msg, &mut again);
                                        worst = r.0;
                                        msg = r.1;
                                    }
                                    fail = Some((worst, msg));
                                    break;
                                }
                                Outcome::Broken(m) => {
                                    broken.lock().unwrap().push(format!("{} [{}]", m, describe(&c)));
                                    break;
                                }
                                _ => {}
                            }
                        }
                    }
                    if let Some((case, message)) = fail {
                        best.fetch_min(t, Ordering::SeqCst);
                        failures.lock().unwrap().push(Failure { order: (*fi, t), family: f.name, case, message });
                    }
                    totals.lock().unwrap().push((t, tally));
                }
                done.fetch_add(1, Ordering::SeqCst);
            })
            .expect("a worker thread");
    }

    // Wait, watching for an evaluation that burns CPU without end.
    let mut hung: Option<(&'static str, Case)> = None;
    let mut beat = Instant::now();
    while done.load(Ordering::SeqCst) < THREADS {
        std::thread::sleep(Duration::from_millis(5));
        if beat.elapsed() < Duration::from_millis(500) {
            continue;
        }
        beat = Instant::now();
        for s in slots.iter() {
            let s = s.lock().unwrap().clone();
            if let (Some((f, c)), Some(now)) = (&s.case, cpu_ticks(&s.tid)) {
                if now.saturating_sub(s.cpu0) > HANG_CPU_SECONDS * 100 {
                    hung = Some((f, c.clone()));
                }
            }
        }
        if hung.is_some() {
            stop.store(true, Ordering::SeqCst);
            // Other workers may still report an ordinary failure.
            let grace = Instant::now();
            while done.load(Ordering::SeqCst) < THREADS - 1 && grace.elapsed() < Duration::from_secs(5) {
                std::thread::sleep(Duration::from_millis(20));
            }
            break;
        }
    }
    let mut parts = std::mem::take(&mut *totals.lock().unwrap());
    parts.sort_by_key(|p| p.0);
    for (_, t) in parts {
        total.absorb(t);
    }
    let mut failures = std::mem::take(&mut *failures.lock().unwrap());
    failures.sort_by_key(|f| f.order);
    if let Some((family, case)) = hung {
        if failures.is_empty() {
            failures.push(Failure {
                order: (0, 0),
                family,
                message: format!("no result: evaluation used more than {} s of CPU time", HANG_CPU_SECONDS),
                case,
            });
        }
    }

    let broken = std::mem::take(&mut *broken.lock().unwrap());
    if calibrate {
        for (k, (r, c)) in &total.ratios {
            println!("{:44} {:10.3e}  {}", k, r, c);
        }
        for (k, v) in &total.labels {
            println!("    {:60} {}", k, v);
        }
    }
    for (k, (n, m)) in &total.known {
        println!("KNOWN-FINDING: property={} {} ({} cases this run; e.g. {})", prop.id, k, n, m);
    }
    let violations = failures.len().min(1);
    write_evidence(prop, opt, &total, violations, t0.elapsed().as_secs_f64(), &families);
    if !calibrate {
        for (id, p, _) in &findings.open {
            if p == prop.id && !total.known.contains_key(id.as_str()) {
                println!("note: listed finding {} did not occur in this run", id);
            }
        }
    }
    if let Some(f) = failures.first() {
        let dir = format!("{}/replays", opt.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}-{}.txt", dir, prop.id, f.family, opt.seed);
        let text = to_text(prop.id, f.family, &f.case, &f.message);
        if let Err(e) = std::fs::write(&path, &text) {
            eprintln!("cannot write {}: {}", path, e);
        }
        println!("{}: {} [{}]", f.family, f.message, describe(&f.case));
        println!("VIOLATION property={} replay={}", prop.id, path);
        return 1;
    }
    if !broken.is_empty() {
        for b in broken.iter().take(5) {
            eprintln!("harness error: {}", b);
        }
        return 2;
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial) in {:.1} s",
        prop.id,
        total.evaluations,
        total.distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    0
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// CPU time of this thread, in hundredths of a second.
fn cpu_now() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.sec as u64 * 100 + t.nsec as u64 / 10_000_000
}

pub fn replay(prop: &'static Property, path: &str, verif: &str) -> i32 {
    let findings = Findings::load(&format!("{}/known_findings.txt", verif));
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    let mut code = 0;
    for (p, name, case) in from_text(&text) {
        if p != prop.id {
            eprintln!("{} is a replay of {}", path, p);
            return 2;
        }
        let Some(f) = prop.families.iter().find(|f| f.name == name) else {
            eprintln!("no family {} in {}", name, p);
            return 2;
        };
        let mut ctx = Ctx::default();
        println!("replaying {} {}", name, describe(&case));
        match evaluate(f.oracle, &case, &mut ctx, prop.id, &findings) {
            Outcome::Pass => println!("holds"),
            Outcome::Known(k, m) => println!("KNOWN-FINDING: property={} {} {}", prop.id, k, m),
            Outcome::Fail(m) => {
                println!("{}", m);
                println!("VIOLATION property={} replay={}", prop.id, path);
                code = 1;
            }
            Outcome::Broken(m) => {
                eprintln!("{}", m);
                return 2;
            }
        }
    }
    code
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn num(v: f64) -> String {
    if v.is_finite() {
        format!("{:.4e}", v)
    } else {
        esc(&format!("{}", v))
    }
}

fn write_evidence(prop: &Property, opt: &Options, t: &Tally, violations: usize, wall: f64, families: &[&Family]) {
    let mut samples: Vec<String> = vec![];
    for f in families {
        for s in t.samples.get(f.name).into_iter().flatten().take(2) {
            samples.push(esc(&format!("{}: {}", f.name, s)));
        }
    }
    let labels: Vec<String> = t.labels.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    let ratios: Vec<String> =
        t.ratios.iter().map(|(k, (r, _))| format!("{}: {}", esc(k), num(*r))).collect();
    let known: Vec<String> = t.known.iter().map(|(k, (n, m))| format!("{}: {}", esc(k), esc(&format!("{} cases, e.g. {}", n, m)))).collect();
    let text = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}],\n    \"draws\": {},\n    \"classes\": {{{}}},\n    \"largest_error_over_tolerance\": {{{}}},\n    \"known_findings_seen\": {{{}}}\n  }},\n  \"assumptions\": [{}, {}, {}],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
        esc(prop.id),
        esc(if opt.thorough { "thorough" } else { "quick" }),
        opt.seed,
        t.evaluations,
        t.distinct.len(),
        esc(prop.rule),
        samples.join(", "),
        t.draws,
        labels.join(", "),
        ratios.join(", "),
        known.join(", "),
        esc("the double-double reference (harness/src/dd.rs, refm.rs) is right; it is itself checked against 525 mpmath values by `cargo test`"),
        esc("the crate is built with debug assertions and overflow checks, as its own tests are"),
        esc("parameters outside the generator ranges written in DESIGN.md are not explored"),
        wall,
        violations
    );
    let dir = format!("{}/evidence", opt.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.json", dir, prop.id);
    if let Err(e) = std::fs::write(&path, text) {
        eprintln!("cannot write {}: {}", path, e);
    }
}
