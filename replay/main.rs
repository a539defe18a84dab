//! Entry point of the bounded searches (module of the crate root in the scratch build).
pub(crate) mod common;
pub(crate) mod scripted;
pub(crate) mod plans;
pub(crate) mod e2e;
#[cfg(any(vp_c06, vp_c11))] mod nested;
#[cfg(vp_c26)] #[allow(dead_code)] #[path = "c10.rs"] mod feeds;
macro_rules! searches {
    ($($cfg:ident $m:ident;)*) => {
        $(#[cfg($cfg)] mod $m;)*
        #[allow(unused_variables, unused_mut)]
        fn dispatch(seed: u64, thorough: bool) -> common::Search {
            let mut s = common::Search::new("");
            $(#[cfg($cfg)] { s = $m::run(seed, thorough); })*
            s
        }
    };
}
searches! {
    vp_c01 c01;
    vp_c02 c02;
    vp_c03 c03;
    vp_c04 c04;
    vp_c05 c05;
    vp_c06 c06;
    vp_c07 c07;
    vp_c08 c08;
    vp_c09 c09;
    vp_c10 c10;
    vp_c11 c11;
    vp_c12 c12;
    vp_c13 c13;
    vp_c14 c14;
    vp_c15 c15;
    vp_c16 c16;
    vp_c17 c17;
    vp_c18 c18;
    vp_c19 c19;
    vp_c20 c20;
    vp_c21 c21;
    vp_c22 c22;
    vp_c23 c23;
    vp_c24 c24;
    vp_c25 c25;
    vp_c26 c26;
}

pub fn main() {
    let out = std::env::args().nth(1).expect("output file");
    let seed: u64 = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::args().nth(3).map(|s| s == "thorough").unwrap_or(false);
    let t = std::time::Instant::now();
    if std::env::var("VP_PANICS").is_err() {
        std::panic::set_hook(Box::new(|i| *common::LAST_PANIC.lock().unwrap() = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()));
    }
    let s = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch(seed, thorough))) {
        Ok(s) => s,
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
            let mut s = common::Search::new("");
            s.fail(format!("the code under test panicked outside a guarded call: {m}"));
            s
        }
    };
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\t', " ").chars().filter(|c| !c.is_control()).collect::<String>();
    let fail = match &s.failure { Some(f) => format!("\"{}\"", esc(f)), None => "null".into() };
    let known = s.known.iter().map(|(k, v)| format!("\"{}\": \"{}\"", esc(k), esc(v))).collect::<Vec<_>>().join(", ");
    std::fs::write(&out, format!("{{\"cases\": {}, \"bound\": \"{}\", \"failure\": {}, \"ids\": {{{}}}, \"seconds\": {:.2}}}\n", s.cases, esc(&s.bound), fail, known, t.elapsed().as_secs_f64())).unwrap();
    // leave without waiting for detached tasks
    std::process::exit(0);
}
