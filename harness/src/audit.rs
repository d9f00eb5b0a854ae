use decy_verify::{audit_rust_code, UnsafeAuditReport, UnsafeAuditor};
use serde_json::{json, Value};

fn show(r: anyhow::Result<UnsafeAuditReport>) -> Value {
    match r {
        Err(_) => json!({"ok": false}),
        Ok(r) => json!({"ok": true, "total": r.total_lines, "lines": r.unsafe_lines, "density": r.unsafe_density_percent, "avg": r.average_confidence,
            "target": r.meets_density_target(), "high": r.high_confidence_blocks().len(),
            "blocks": r.unsafe_blocks.iter().map(|b| json!([format!("{:?}", b.pattern), b.confidence])).collect::<Vec<_>>(),
            "hint": r.unsafe_blocks.iter().all(|b| !b.suggestion.is_empty())}),
    }
}

/// One auditor used for every text of the history, and a fresh one for each.
pub fn audit(v: &Value) -> Value {
    let mut a = UnsafeAuditor::new();
    let obs: Vec<Value> = v["steps"].as_array().unwrap().iter().map(|s| {
        let t = s["text"].as_str().unwrap();
        json!([show(a.audit(t)), show(audit_rust_code(t))])
    }).collect();
    json!({ "obs": obs })
}
