use crate::labeling::kind;
use decy_ownership::hybrid_classifier::*;
use decy_ownership::inference::{OwnershipInference, OwnershipKind};
use decy_ownership::ml_features::{InferredOwnership, OwnershipFeatures, OwnershipPrediction};
use decy_ownership::threshold_tuning::*;
use serde_json::{json, Value};

struct M(InferredOwnership, f32);
impl OwnershipModel for M {
    fn predict(&self, _: &OwnershipFeatures) -> OwnershipPrediction {
        OwnershipPrediction { kind: self.0, confidence: self.1, fallback: None }
    }
}

pub fn hybrid(v: &Value) -> Value {
    let mut c = match v["start"].as_i64().unwrap() {
        99 => HybridClassifier::new(),
        t => HybridClassifier::with_threshold(t as f64 / 8.0),
    };
    let mut met = HybridMetrics::new();
    let mut obs = Vec::new();
    for s in v["steps"].as_array().unwrap() {
        let r = match s["op"].as_str().unwrap() {
            "switch" => {
                if s["v"] == true {
                    c.enable_ml()
                } else {
                    c.disable_ml()
                }
                json!(0)
            }
            "set" => {
                c.set_threshold(s["v"].as_i64().unwrap() as f64 / 8.0);
                json!(0)
            }
            _ => {
                let inf = OwnershipInference {
                    variable: "p".into(),
                    kind: match s["k"].as_str().unwrap() {
                        "owning" => OwnershipKind::Owning,
                        "immut" => OwnershipKind::ImmutableBorrow,
                        "mut" => OwnershipKind::MutableBorrow,
                        "array" => OwnershipKind::ArrayPointer {
                            base_array: "a".into(),
                            element_type: decy_hir::HirType::Int,
                            base_index: None,
                        },
                        _ => OwnershipKind::Unknown,
                    },
                    confidence: s["rc"].as_u64().unwrap() as f32 / 8.0,
                    reason: "because".into(),
                };
                let m = M(kind(s["mk"].as_str().unwrap()), s["mc"].as_u64().unwrap() as f32 / 8.0);
                let f = OwnershipFeatures::default();
                let x = match s["mode"].as_str().unwrap() {
                    "rules" => c.classify_rule_based(&inf),
                    "hybrid" => c.classify_hybrid(&inf, &f, &m),
                    _ => c.classify_ensemble(&inf, &f, &m),
                };
                met.record(&x);
                let asked = x.ml_result.is_some();
                let faithful = x.variable == "p"
                    && x.rule_result.is_some()
                    && x.ml_result.as_ref().map_or(true, |p| p.kind == m.0 && p.confidence == m.1)
                    && x.used_fallback() == (x.method == ClassificationMethod::Fallback)
                    && x.ml_rejected() == (asked && x.used_fallback());
                json!({"o": crate::labeling::name(x.ownership), "c": x.confidence * 160.0, "m": x.method.to_string(),
                    "ml": asked, "faithful": faithful, "rule": x.rule_result.map(crate::labeling::name)})
            }
        };
        let rates = [met.ml_usage_rate(), met.fallback_rate(), met.agreement_rate()];
        obs.push(json!({"r": r, "on": c.ml_enabled(), "th": c.confidence_threshold() * 800.0, "m": met, "rates": rates}));
    }
    json!({"obs": obs})
}

/// One request: samples, candidates (20ths) and criterion.
pub fn tuner(v: &Value) -> Value {
    let f = |x: &Value| x.as_u64().unwrap() as f64 / 20.0;
    let crit = match v["crit"].as_str().unwrap() {
        "accuracy" => SelectionCriteria::MaxAccuracy,
        "f1" => SelectionCriteria::MaxF1,
        "balanced" => SelectionCriteria::BalancedAccuracyFallback,
        _ => SelectionCriteria::MinFallbackAboveBaseline,
    };
    let cands: Vec<f64> = v["cands"].as_array().unwrap().iter().map(f).collect();
    let outs: Vec<Value> = v["sets"]
        .as_array()
        .unwrap()
        .iter()
        .map(|ss| {
            use InferredOwnership::{Owned, Slice};
            let ss: Vec<ValidationSample> = ss
                .as_array()
                .unwrap()
                .iter()
                .map(|s| {
                    let rule = if s["ru"] == true { Owned } else { Slice };
                    let ml = match s["ml"].as_str().unwrap() {
                        "right" => Owned,
                        "wrong" => InferredOwnership::Vec,
                        _ => rule,
                    };
                    ValidationSample::new(Owned, rule, ml, f(&s["c"]))
                })
                .collect();
            let t = if v["default"] == true {
                ThresholdTuner::new()
            } else if v["add"] == true {
                let mut t = ThresholdTuner::with_candidates(vec![cands[0]]);
                for c in &cands {
                    t.add_candidate(*c);
                }
                t
            } else {
                ThresholdTuner::with_candidates(cands.clone())
            };
            let r = t.with_criteria(crit).tune(&ss);
            let n = ss.len() as f64;
            let k = |x: f64| (x * n).round() as i64;
            let q = |x: f64| (x * 20.0).round() as i64;
            let at: Vec<Value> = r
                .all_thresholds
                .iter()
                .map(|m| {
                    let ok = m.sample_count == ss.len()
                        && (m.precision - m.accuracy).abs() < 1e-9
                        && (m.recall - m.accuracy).abs() < 1e-9
                        && (m.f1_score - m.accuracy).abs() < 1e-9
                        && (m.fallback_rate + m.ml_usage_rate - 1.0).abs() < 1e-9;
                    json!([q(m.threshold), k(m.accuracy), k(m.ml_usage_rate), ok])
                })
                .collect();
            let mut o = json!({"opt": q(r.optimal_threshold), "acc": k(r.optimal_metrics.accuracy), "at": at, "base": k(r.baseline_accuracy),
                "mlonly": k(r.ml_only_accuracy), "imp": k(r.improvement_over_baseline), "optm": q(r.optimal_metrics.threshold)});
            if v["default"] == true && v["crit"] == "accuracy" {
                o["quick"] = json!(q(find_optimal_threshold(&ss)));
            }
            o
        })
        .collect();
    json!({ "outs": outs })
}
