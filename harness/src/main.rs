mod atomic;
mod cases;
mod dmg;
mod dump;
mod gen;
mod man;
mod mk;
mod prims;
mod sync;
mod views;

use serde_json::{json, Value as J};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub static PANICS: AtomicUsize = AtomicUsize::new(0);
pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn run_case(c: &J) -> J {
    let before = PANICS.load(Ordering::SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cases::run(c)));
    let mut out = match r {
        Ok(v) => json!({"id": c["id"], "res": v, "outcome": "done"}),
        Err(_) => json!({"id": c["id"], "outcome": "panic", "msg": LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()}),
    };
    let n = PANICS.load(Ordering::SeqCst) - before;
    if n > 0 {
        out["panics"] = json!(n);
        out["msg"] = json!(LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone());
    } else {
        out["panics"] = json!(0);
    }
    out
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        PANICS.fetch_add(1, Ordering::SeqCst);
        let mut l = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        *l = format!("{info}").chars().take(400).collect();
    }));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let stdin = std::io::stdin();
            let stdout = std::io::stdout();
            for line in stdin.lock().lines() {
                let line = line.unwrap();
                if line.trim().is_empty() {
                    continue;
                }
                let c: J = serde_json::from_str(&line).expect("case json");
                let out = run_case(&c);
                let mut o = stdout.lock();
                serde_json::to_writer(&mut o, &out).unwrap();
                o.write_all(b"\n").unwrap();
                o.flush().unwrap();
            }
        }
        Some("one") => {
            let c: J = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            println!("{}", run_case(&c));
        }
        _ => {
            eprintln!("usage: jv worker | jv one FILE");
            std::process::exit(2);
        }
    }
}
