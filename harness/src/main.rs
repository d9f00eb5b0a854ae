//! Test driver around the real decy crates: reads JSON lines, drives the code
//! under test, writes what it observed as JSON lines.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

mod audit;
mod cache;
mod entry;
mod hybrid;
mod includes;
mod labeling;
mod ledger;
mod locks;
mod models;
mod order;
mod transpile;
mod upkeep;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let sub = std::env::args().nth(1).unwrap_or_default();
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.trim().is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).expect("json");
        let r = catch_unwind(AssertUnwindSafe(|| dispatch(&sub, &v)));
        let out = match r {
            Ok(x) => x,
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                json!({ "panic": msg })
            }
        };
        let mut o = stdout.lock();
        writeln!(o, "{}", out).expect("stdout");
        o.flush().expect("stdout");
    }
}

fn dispatch(sub: &str, v: &Value) -> Value {
    match sub {
        "audit" => audit::audit(v),
        "cache" => cache::cache(v),
        "order" => order::order(v),
        "includes" => includes::includes(v),
        "hybrid" => hybrid::hybrid(v),
        "tuner" => hybrid::tuner(v),
        "labeling" => labeling::labeling(v),
        "ledger" => ledger::ledger(v),
        "locks" => locks::locks(v),
        "entry" => entry::entry(v),
        "upkeep" => upkeep::upkeep(v),
        "versions" => models::versions(v),
        "retrain" => models::retrain(v),
        "transpile" => transpile::transpile(v),
        _ => {
            eprintln!("unknown subcommand {sub}");
            std::process::exit(3)
        }
    }
}
