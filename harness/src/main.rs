mod dd;
mod gen;
mod oracle;
mod p_cdf;
mod p_misc;
mod p_mom;
mod p_quant;
mod p_sample;
mod refm;
mod runner;
mod spec;

use runner::{Options, Property};

fn properties() -> Vec<fn() -> Property> {
    vec![p_cdf::p01, p_cdf::p02, p_cdf::p03, p_cdf::p04, p_cdf::p05, p_quant::p06, p_quant::p07, p_quant::p08, p_quant::p09, p_mom::p10, p_mom::p11, p_mom::p12, p_sample::p13, p_sample::p14, p_sample::p15, p_misc::p16, p_misc::p17, p_misc::p18, p_misc::p19, p_misc::p20]
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut id = None;
    let mut path = None;
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string());
    let mut opt = Options {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
        calibrate: false,
        only: None,
        scale: 1.0,
        verif,
    };
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--replay" => path = it.next(),
            "--calibrate" => opt.calibrate = true,
            "--thorough" => opt.thorough = true,
            "--only" => opt.only = it.next(),
            "--scale" => opt.scale = it.next().and_then(|s| s.parse().ok()).unwrap_or(1.0),
            "--seed" => opt.seed = it.next().and_then(|s| s.parse().ok()).unwrap_or(1),
            _ => id = Some(a),
        }
    }
    let Some(id) = id else {
        eprintln!("usage: harness PROPERTY [--replay FILE] [--only FAMILY] [--scale X] [--seed N] [--thorough] [--calibrate]");
        std::process::exit(2);
    };
    runner::install_hook();
    for p in properties() {
        let p = p();
        if p.id == id {
            let p: &'static Property = Box::leak(Box::new(p));
            let code = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match path {
                Some(f) => runner::replay(p, &f, &opt.verif),
                None => runner::run(p, &opt),
            }));
            std::process::exit(code.unwrap_or_else(|e| {
                let e = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                eprintln!("the harness itself panicked: {}", e.unwrap_or_default());
                2
            }));
        }
    }
    eprintln!("no property {}", id);
    std::process::exit(2);
}
