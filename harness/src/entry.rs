//! Several translations in one process, one after the other or at once.
use serde_json::{json, Value};

/// {"reqs": [transpile request or {"par": [requests]}]}
pub fn entry(v: &Value) -> Value {
    let out: Vec<Value> = v["reqs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|r| {
            if let Some(p) = r["par"].as_array() {
                let hs: Vec<_> = p
                    .iter()
                    .cloned()
                    .map(|q| std::thread::Builder::new().stack_size(64 << 20).spawn(move || crate::transpile::transpile(&q)).unwrap())
                    .collect();
                json!(hs.into_iter().map(|h| h.join().unwrap_or(json!({"err": "panic"}))).collect::<Vec<_>>())
            } else {
                crate::transpile::transpile(r)
            }
        })
        .collect();
    json!({ "obs": out })
}
