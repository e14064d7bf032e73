//! Ends the process when a single case uses an absurd amount of processor time.
use std::{
    path::PathBuf,
    sync::{Mutex, atomic::{AtomicU64, Ordering::Relaxed}},
};

static SERIAL: AtomicU64 = AtomicU64::new(0);
static WHAT: Mutex<String> = Mutex::new(String::new());

/// Exit status of a process that was ended by the watchdog.
pub const HANG_EXIT: i32 = 97;

fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit_once(')').map_or("", |x| x.1);
    let f: Vec<&str> = rest.split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}

/// A new case begins.
pub fn begin(what: impl FnOnce() -> String) {
    SERIAL.fetch_add(1, Relaxed);
    if std::env::var_os("MV_TRACE").is_some() || KEEP.load(Relaxed) {
        *WHAT.lock().unwrap() = what();
    }
}
static KEEP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Remember every case, for programs whose cases are few.
pub fn keep() { KEEP.store(true, Relaxed); }

/// Start watching; `limit_s` is processor time of the whole process during one case.
pub fn start(hang_file: PathBuf, limit_s: u64) {
    std::thread::spawn(move || {
        let mut serial = SERIAL.load(Relaxed);
        let mut since = cpu_ticks();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = SERIAL.load(Relaxed);
            let t = cpu_ticks();
            if now != serial { serial = now; since = t; continue; }
            if t.saturating_sub(since) > limit_s * 100 {
                let what = WHAT.lock().map(|w| w.clone()).unwrap_or_default();
                let _ = std::fs::write(&hang_file, what);
                std::process::exit(HANG_EXIT);
            }
        }
    });
}
