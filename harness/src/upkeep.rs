use decy_oracle::metrics::{CIReport, CIThresholds, OracleMetrics};
use decy_oracle::retirement::*;
use decy_oracle::{DecyOracle, OracleConfig, RustcError};
use serde_json::{json, Value};

fn dec(d: &RetirementDecision) -> Value {
    let n = match d {
        RetirementDecision::Keep => "keep",
        RetirementDecision::Retire(_) => "retire",
        RetirementDecision::Archive(_) => "archive",
    };
    let (w, u, ok) = match d.reason() {
        None => ("", json!(0), true),
        Some(RetirementReason::LowUsage { uses, threshold, window_days }) => ("usage", json!(uses), *threshold > 0 && *window_days == 30),
        Some(RetirementReason::HighFailureRate { success_rate, .. }) => ("failures", json!(success_rate), true),
        Some(RetirementReason::Superseded { better_pattern_id, .. }) => ("superseded", json!(0), better_pattern_id == "better"),
        Some(RetirementReason::ManualDeprecation { .. }) => ("manual", json!(0), true),
    };
    json!({"d": n, "why": w, "uses": u, "ok": ok && d.should_remove() == (n != "keep")})
}

fn rt<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> T {
    serde_json::from_str(&serde_json::to_string(x).unwrap()).unwrap()
}

pub fn upkeep(v: &Value) -> Value {
    let f = |k: &str| v[k].as_f64().unwrap();
    let policy = if v["default"] == true {
        PatternRetirementPolicy::new()
    } else {
        PatternRetirementPolicy::with_config(RetirementConfig {
            min_usage_threshold: v["minuse"].as_u64().unwrap() as usize,
            min_success_rate: v["raten"].as_u64().unwrap() as f32 / v["rated"].as_u64().unwrap() as f32,
            archive_instead_of_delete: v["arch"] == true,
            ..Default::default()
        })
    };
    let th = || {
        if v["default"] == true {
            CIThresholds::default()
        } else {
            CIThresholds { min_hit_rate: f("hitn") / f("hitd"), min_fix_rate: f("fixn") / f("fixd") }
        }
    };
    let names: Vec<&str> = v["pats"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    let mut pats: Vec<PatternStats> = names.iter().map(|n| PatternStats::new(*n, "E0382")).collect();
    let mut met = OracleMetrics::default();
    let mut orc = DecyOracle::new(OracleConfig::default()).unwrap();
    let mut orc_ok = true;
    let mut obs = Vec::new();
    for s in v["steps"].as_array().unwrap() {
        let p = |pats: &[PatternStats]| pats.iter().position(|p| p.pattern_id == s["x"].as_str().unwrap()).unwrap();
        let e = || RustcError::new(s["c"].as_str().unwrap(), "m");
        match s["op"].as_str().unwrap() {
            "use" => {
                let i = p(&pats);
                pats[i].record_use(s["b"] == true)
            }
            "reset" => {
                let i = p(&pats);
                pats[i].reset_window()
            }
            "supersede" => {
                let i = p(&pats);
                pats[i].mark_superseded("better")
            }
            "hits" => met.record_hit(s["c"].as_str().unwrap()),
            "misses" => {
                met.record_miss(s["c"].as_str().unwrap());
                orc.record_miss(&e());
            }
            "applied" => {
                met.record_fix_applied(s["c"].as_str().unwrap());
                orc.record_fix_applied(&e());
            }
            "verified" => {
                met.record_fix_verified(s["c"].as_str().unwrap());
                orc.record_fix_verified(&e());
            }
            _ => {
                pats = rt(&pats);
                met = rt(&met);
            }
        }
        let om = orc.metrics();
        orc_ok &= om.misses == met.misses && om.queries == met.misses && om.hits == 0 && om.fixes_applied == met.fixes_applied
            && om.fixes_verified == met.fixes_verified;
        let sw = run_retirement_sweep(&pats, &policy);
        let sw = if s["op"] == "persist" { rt(&sw) } else { sw };
        let mut gone: Vec<String> = policy.find_retireable(&pats).iter().map(|p| p.pattern_id.clone()).collect();
        let batch: Vec<Value> = policy.evaluate_batch(&pats).iter().map(|(n, d)| json!([n, dec(d)])).collect();
        let rep = CIReport::from_metrics(met.clone(), th());
        let md = rep.to_markdown().contains("PASSED");
        let mut ids = sw.retired_ids.clone();
        gone.sort();
        ids.sort();
        obs.push(json!({
            "pat": pats.iter().map(|p| json!([p.pattern_id, p.total_uses, p.uses_in_window, p.successes, p.failures, p.superseded_by, p.last_used.is_some(), p.success_rate()])).collect::<Vec<_>>(),
            "dec": pats.iter().map(|p| json!([p.pattern_id, dec(&policy.evaluate(p))])).collect::<Vec<_>>(),
            "batch": batch, "gone": gone,
            "sweep": {"total": sw.total_evaluated, "kept": sw.kept, "usage": sw.retired_low_usage, "failures": sw.retired_high_failure,
                "superseded": sw.retired_superseded, "archived": sw.archived, "gone": ids},
            "rate": sw.retirement_rate(), "retired": sw.total_retired(),
            "met": met, "hit": met.hit_rate(), "fix": met.fix_success_rate(),
            "passes": rep.passed, "md": md, "pct": [rep.hit_rate_pct, rep.fix_success_rate_pct], "orc": orc_ok,
            "passes2": met.meets_ci_thresholds(th().min_hit_rate, th().min_fix_rate),
        }));
    }
    json!({"obs": obs})
}
