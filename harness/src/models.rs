use decy_ownership::ml_features::{InferredOwnership, OwnershipFeaturesBuilder};
use decy_ownership::model_versioning::*;
use decy_ownership::retraining_pipeline::*;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

fn ver(v: &Value) -> ModelVersion {
    let n = |i: usize| v[i].as_u64().unwrap() as u32;
    ModelVersion::new(n(0), n(1), n(2))
}

fn jv(v: &ModelVersion) -> Value {
    assert_eq!(ModelVersion::parse(&v.to_string()).as_ref(), Some(v));
    json!([v.major, v.minor, v.patch])
}

fn metrics(m: &Value) -> ModelQualityMetrics {
    let f = |k: &str| m[k].as_u64().unwrap() as f64 / 1000.0;
    ModelQualityMetrics::new(f("acc"), f("pr"), f("re"), f("f1"), 0.9, 0.1, 100)
}

pub fn versions(v: &Value) -> Value {
    let mut m =
        ModelVersionManager::new().with_max_history(v["max"].as_u64().unwrap() as usize);
    let mut obs = Vec::new();
    let mut n = 0;
    for s in v["steps"].as_array().unwrap() {
        n += 1;
        let r = match s["op"].as_str().unwrap() {
            "register" => match m.register_version(ModelEntry::new(
                ver(&s["v"]),
                metrics(&s["m"]),
                format!("d{n}"),
                format!("p{n}"),
            )) {
                Ok(b) => json!([true, b]),
                Err(_) => json!([false, false]),
            },
            "rollback" => match m.rollback(format!("r{n}")) {
                Ok(x) => {
                    check_rb(&m, &x, &format!("r{n}"));
                    json!([x.success, jv(&x.from_version), jv(&x.to_version)])
                }
                Err(_) => json!([false]),
            },
            "rollback_to" => match m.rollback_to(&ver(&s["v"]), format!("r{n}")) {
                Ok(x) => {
                    check_rb(&m, &x, &format!("r{n}"));
                    json!([x.success, jv(&x.from_version), jv(&x.to_version)])
                }
                Err(_) => json!([false]),
            },
            "observe" => {
                let q = metrics(&s["m"]);
                let bad = m.check_quality(&q).is_some();
                match m.auto_rollback_if_needed(&q) {
                    Some(x) => json!([bad, x.success, jv(&x.from_version), jv(&x.to_version)]),
                    None => json!([bad, false]),
                }
            }
            "persist" => {
                let t = serde_json::to_string(&m).unwrap();
                m = serde_json::from_str(&t).unwrap();
                json!([true])
            }
            x => panic!("op {x}"),
        };
        let vs: Vec<Value> = m
            .versions()
            .map(|e| json!({"v": jv(&e.version), "on": e.is_active, "rolled": e.rolled_back}))
            .collect();
        assert_eq!(m.version_count(), vs.len());
        let act = m.active_version().map(|e| jv(&e.version)).unwrap_or(json!([]));
        obs.push(json!({"r": r, "s": {"vs": vs, "act": act, "nrb": m.rollback_history().len()}}));
    }
    json!({ "obs": obs })
}

/// What a successful rollback reports is what it recorded.
fn check_rb(m: &ModelVersionManager, x: &RollbackResult, reason: &str) {
    let l = m.rollback_history().last().expect("recorded");
    assert_eq!((&l.from_version, &l.to_version, l.reason.as_str()), (&x.from_version, &x.to_version, reason));
    let e = m.versions().find(|e| e.version == x.from_version).expect("kept");
    assert_eq!(e.rollback_reason.as_deref(), Some(reason));
}

#[derive(Clone)]
struct Trainer {
    out: Rc<RefCell<Result<(f64, f64), String>>>,
    split: Rc<RefCell<Vec<usize>>>,
    calls: Rc<Cell<usize>>,
}

impl ModelTrainer for Trainer {
    fn train(&self, d: &DataSplit) -> Result<TrainingMetrics, String> {
        self.calls.set(self.calls.get() + 1);
        *self.split.borrow_mut() = vec![d.train.len(), d.validation.len(), d.test.len()];
        // the three parts are a partition of the samples
        let mut seen: Vec<u32> =
            d.train.iter().chain(&d.validation).chain(&d.test).map(|s| s.line_number).collect();
        seen.sort_unstable();
        assert!(seen.iter().enumerate().all(|(i, &x)| i as u32 == x), "split is no partition");
        self.out.borrow().clone().map(|(p, r)| TrainingMetrics::new(p, r))
    }
}

pub fn retrain(v: &Value) -> Value {
    let t = Trainer {
        out: Rc::new(RefCell::new(Err(String::new()))),
        split: Rc::new(RefCell::new(vec![])),
        calls: Rc::new(Cell::new(0)),
    };
    let c = &v["cfg"];
    let u = |k: &str| c[k].as_u64().unwrap() as usize;
    let cfg = RetrainingConfig {
        min_train_samples: u("MinTrain"),
        min_validation_samples: u("MinVal"),
        min_test_samples: u("MinTest"),
        train_ratio: u("PctTrain") as f64 / 100.0,
        validation_ratio: u("PctVal") as f64 / 100.0,
        ..RetrainingConfig::default()
    };
    let mut p = RetrainingPipeline::new(t.clone(), ModelVersionManager::new(), cfg);
    let mut obs = Vec::new();
    for s in v["steps"].as_array().unwrap() {
        let (r, ver_) = match s["op"].as_str().unwrap() {
            "execute" => {
                let tr = &s["tr"];
                *t.out.borrow_mut() = if tr["err"].as_bool().unwrap() {
                    Err("no".into())
                } else {
                    Ok((tr["p"].as_u64().unwrap() as f64 / 1000.0, tr["r"].as_u64().unwrap() as f64 / 1000.0))
                };
                t.split.borrow_mut().clear();
                let before = t.calls.get();
                let n = s["n"].as_u64().unwrap();
                let samples = (0..n)
                    .map(|i| {
                        TrainingSample::new(
                            OwnershipFeaturesBuilder::default().build(),
                            InferredOwnership::Owned,
                            "f.c",
                            i as u32,
                        )
                    })
                    .collect();
                let res = p.execute(samples);
                let calls = t.calls.get() - before;
                assert_eq!(res.is_success(), matches!(res, RetrainingResult::Promoted { .. }));
                let (o, ver_) = match &res {
                    RetrainingResult::Promoted { version, .. } => ("promoted", jv(version)),
                    RetrainingResult::QualityGateFailed { .. } => ("quality", json!([])),
                    RetrainingResult::Degraded { .. } => ("degraded", json!([])),
                    RetrainingResult::InsufficientData { actual, .. } => {
                        assert_eq!(*actual as u64, n);
                        ("insufficient", json!([]))
                    }
                    RetrainingResult::TrainingError { .. } => ("error", json!([])),
                };
                assert_eq!(calls, if o == "insufficient" { 0 } else { 1 }, "training runs");
                assert_eq!(p.history().last().unwrap().sample_count as u64, n);
                (json!(o), ver_)
            }
            "rollback" => {
                let r = p.rollback(&ver(&s["v"]));
                (json!(r.is_ok()), s["v"].clone())
            }
            x => panic!("op {x}"),
        };
        let n = p.history().len();
        let ok = p
            .history()
            .iter()
            .filter(|e| matches!(e.result, ExecutionSummary::Promoted { .. }))
            .count();
        let rate = if n == 0 { 0.0 } else { ok as f64 / n as f64 };
        assert!((p.success_rate() - rate).abs() < 1e-9, "success rate");
        let act = p.current_version().map(|e| jv(&e.version)).unwrap_or(json!([]));
        obs.push(json!({"r": r, "v": ver_, "split": *t.split.borrow(),
                        "s": {"act": act, "n": n, "ok": ok}}));
    }
    json!({ "obs": obs })
}
