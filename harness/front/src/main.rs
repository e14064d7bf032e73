//! Monitors for the front end: parser, formatter, validation, resolution, generators.
mod cli;
mod conv;
mod doc;
mod gocode;
mod html;
mod json;
mod lsp;
mod lspc;
mod output;
mod proj;
mod rules;
mod rust;
mod same;
mod simple;
mod sizes;
mod syntax;
mod texts;

use mvcore::{out::Report, watch};

pub struct Run { pub seed: u64, pub index: u64, pub rounds: u64, pub secs: u64, pub thorough: bool, started: std::time::Instant }

impl Run {
    pub fn more(&self, round: u64) -> bool { round < self.rounds && self.started.elapsed().as_secs() < self.secs }
}

/// The last panic, which only matters if it is one of the monitor.
static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn main() {
    if let Ok(k) = std::env::var("MV_DEEP") { syntax::deep(&k); }
    let get = |k: &str| std::env::var(k).ok();
    let num = |k: &str, d: u64| get(k).map_or(d, |v| v.parse().unwrap());
    let prop = get("MV_PROPERTY").expect("MV_PROPERTY");
    let out = get("MV_OUT").expect("MV_OUT");
    let run = Run { seed: num("MV_SEED", 1), index: num("MV_INDEX", 0), rounds: num("MV_ROUNDS", 100), secs: num("MV_SECS", 60), thorough: get("MV_TIER").as_deref() == Some("thorough"), started: std::time::Instant::now() };
    if std::env::var_os("MV_LOUD").is_none() { std::panic::set_hook(Box::new(|i| *LAST.lock().unwrap() = i.to_string())); }
    watch::keep();
    watch::start(format!("{out}.hang").into(), 40);
    let mut rep = Report::new(&out, &prop);
    // plenty of stack, so that only absurd recursion ends the process
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || match prop.as_str() {
            "C09" | "C10" | "C11" => syntax::run(&run, &mut rep, &prop),
            "C12" | "C13" | "C14" | "C16" => rules::run(&run, &mut rep, &prop),
            "C15" => rust::run(&run, &mut rep),
            "C18" => doc::run(&run, &mut rep),
            "C20" => { std::env::set_current_dir("/").unwrap(); proj::run(&run, &mut rep) }
            "C21" => { std::env::set_current_dir("/").unwrap(); cli::run(&run, &mut rep) }
            "C22" | "C23" | "C24" => lsp::run(&run, &mut rep, &prop),
            "C26" => { std::env::set_current_dir("/").unwrap(); output::run(&run, &mut rep) }
            "C27" => json::run(&run, &mut rep),
            "C25" => same::run(&run, &mut rep),
            "C19" => sizes::run(&run, &mut rep),
            "C17" => gocode::run(&run, &mut rep),
            _ => panic!("unknown property {prop}"),
        }).unwrap().join().unwrap_or_else(|_| { eprintln!("{}", LAST.lock().unwrap()); std::process::exit(101) });
    });
    rep.save();
}

/// Run something that must not panic.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}

/// The messages of an error and its causes.
pub fn chain(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut e = e.source();
    while let Some(x) = e { s.push_str(": "); s.push_str(&x.to_string()); e = x.source(); }
    s
}
