use decy_core::metrics::{CompileMetrics, ConvergenceReport, TierMetrics};
use decy_llm::verifier::{CompilationMetrics, IterationContext};
use decy_oracle::baseline::{aggregate_measurements, FileMeasurement};
use decy_ownership::error_tracking::*;
use decy_ownership::ml_features::{InferredOwnership, OwnershipDefect};
use serde_json::{json, Value};

fn defect(s: &str) -> OwnershipDefect {
    match s {
        "d1" => OwnershipDefect::PointerMisclassification,
        "d2" => OwnershipDefect::AliasViolation,
        _ => OwnershipDefect::MutabilityMismatch,
    }
}

pub fn ledger(v: &Value) -> Value {
    let mut cm = CompileMetrics::new();
    let mut lm = CompilationMetrics::new();
    let mut fm: Vec<FileMeasurement> = vec![];
    let mut tiers: Vec<TierMetrics> = v["tiers"].as_array().unwrap().iter().map(|t| TierMetrics::new(t.as_str().unwrap())).collect();
    let mut tr = ErrorTracker::new();
    let mut it = IterationContext::new(v["maxtry"].as_u64().unwrap() as usize);
    let mut obs = vec![];
    for (i, s) in v["steps"].as_array().unwrap().iter().enumerate() {
        let feats = || -> Vec<String> { s["F"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() };
        match s["op"].as_str().unwrap() {
            "file" => {
                let (o, k, c) = (s["o"].as_str().unwrap(), s["k"].as_u64().unwrap(), s["c"].as_str().unwrap());
                let ok = o == "ok";
                if ok && k == 1 {
                    cm.record_success();
                    fm.push(if i % 2 == 0 { FileMeasurement::first_try_success(format!("{i}.c")) } else { FileMeasurement::success_after(format!("{i}.c"), 1, vec![]) });
                } else {
                    let m = match (c, i % 2) {
                        ("UNKNOWN", _) => "linking failed".to_string(),
                        (c, 0) => format!("error[{c}]: cannot do this"),
                        (c, _) => format!("{c}: mismatched types"),
                    };
                    cm.record_failure(&m);
                    fm.push(if ok { FileMeasurement::success_after(format!("{i}.c"), k as u32, vec![c.into()]) } else { FileMeasurement::failure(format!("{i}.c"), k as u32, vec![c.into()]) });
                }
                lm.record_attempt(ok, k as usize);
                let t = tiers.iter_mut().find(|t| t.tier_name == s["t"].as_str().unwrap()).unwrap();
                t.total_files += 1;
                match o {
                    "ok" => {
                        t.transpile_success += 1;
                        t.compile_success += 1
                    }
                    "nocompile" => {
                        t.transpile_success += 1;
                        t.compile_failures += 1
                    }
                    _ => t.transpile_failures += 1,
                }
            }
            "reset" => {
                cm.reset();
                lm.reset();
            }
            "err" => tr.record_error(
                InferenceError::new(format!("v{i}"), "a.c", i as u32, InferredOwnership::Owned, InferredOwnership::Borrowed, 0.5, defect(s["d"].as_str().unwrap())).with_features(feats()),
            ),
            "suc" => tr.record_success(&feats()),
            "try" => it.record_failure(&format!("code{i}"), (0..s["k"].as_u64().unwrap()).map(|j| format!("e{i}.{j}")).collect()),
            _ => unreachable!(),
        }
        let cm2: CompileMetrics = serde_json::from_str(&cm.to_json()).unwrap();
        let b = aggregate_measurements(&fm);
        let mut rep = ConvergenceReport::new();
        for t in &tiers {
            rep.add_tier(t.clone());
        }
        let susp = tr.calculate_suspiciousness();
        let sg = tr.generate_suggestions();
        let ids: Vec<u64> = tr.errors().iter().map(|e| e.id).collect();
        let name = |d: &str| match d { "PointerMisclassification" => "d1", "AliasViolation" => "d2", "MutabilityMismatch" => "d3", _ => "?" }.to_string();
        obs.push(json!({
            "c": [cm.total_attempts(), cm.successes(), cm.failures(), cm.success_rate(), cm.error_histogram(), cm.meets_target(0.8), cm.to_markdown().contains("PASS")],
            "c2": cm2.total_attempts() == cm.total_attempts() && cm2.successes() == cm.successes() && cm2.error_histogram() == cm.error_histogram(),
            "md": cm.to_markdown(),
            "l": [lm.total_attempts(), lm.first_try_successes(), lm.first_try_rate(), lm.average_iterations(), lm.iteration_histogram().iter().map(|(k, v)| (k.to_string(), *v)).collect::<std::collections::BTreeMap<_, _>>(), lm.meets_target(CompilationMetrics::TARGET_RATE)],
            "b": [b.corpus_size(), b.first_try_successes(), b.eventual_successes(), b.first_try_rate(), b.average_iterations(), b.meets_target(), b.confidence_interval().0, b.confidence_interval().1, b.significantly_below_target(), b.includes_target()],
            "t": tiers.iter().map(|t| json!([t.tier_name, t.transpile_rate(), t.compile_rate()])).collect::<Vec<_>>(),
            "tt": [rep.overall_transpile_rate(), rep.overall_compile_rate()], "tmd": rep.to_markdown(),
            "e": [tr.error_count(), tr.success_count()], "ids": ids,
            "dd": tr.defect_distribution().iter().map(|(k, v)| (name(k), *v)).collect::<std::collections::BTreeMap<_, _>>(),
            "bd": vec!["d1", "d2", "d3"].iter().map(|d| json!([d, tr.errors_by_defect(&defect(d)).len()])).collect::<Vec<_>>(),
            "bf": vec!["f1", "f2", "f3"].iter().map(|f| json!([f, tr.errors_by_feature(f).len()])).collect::<Vec<_>>(),
            "fdist": tr.feature_distribution(),
            "fd": tr.feature_defect_correlation().iter().map(|(f, d, n)| json!([f, name(d), n])).collect::<Vec<_>>(),
            "susp": susp.iter().map(|f| json!([f.feature, f.score, f.total_count, f.failure_count, f.success_count, f.is_suspicious(), f.is_highly_suspicious()])).collect::<Vec<_>>(),
            "top": tr.top_suspicious(2).len(),
            "sug": sg.iter().map(|s| json!([s.affected_feature, s.affected_defect.as_ref().map(|d| name(d))])).collect::<Vec<_>>(),
            "it": [it.iteration, it.can_retry(), it.previous_errors.len(), it.feedback.len(), it.previous_code.is_some()],
            "fb": it.feedback,
        }));
    }
    json!({ "obs": obs })
}
