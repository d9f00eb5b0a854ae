use decy_ownership::active_learning::*;
use decy_ownership::ml_features::{InferredOwnership, OwnershipFeatures, OwnershipPrediction};
use serde_json::{json, Value};

pub fn kind(s: &str) -> InferredOwnership {
    use InferredOwnership::*;
    match s {
        "owned" => Owned,
        "borrowed" => Borrowed,
        "borrowedmut" => BorrowedMut,
        "shared" => Shared,
        "raw" => RawPointer,
        "vec" => Vec,
        "slice" => Slice,
        _ => SliceMut,
    }
}

fn sc(x: f64) -> i64 {
    (x * 8000.0).round() as i64
}

fn sum(st: &QueueStats) -> i64 {
    sc(st.avg_uncertainty * st.pending as f64)
}

pub fn name(k: InferredOwnership) -> &'static str {
    ["owned", "borrowed", "borrowedmut", "shared", "raw", "vec", "slice", "slicemut"]
        .into_iter()
        .find(|n| kind(n) == k)
        .unwrap()
}

enum Q {
    Queue(SampleQueue),
    Learner(ActiveLearner),
}

impl Q {
    fn stats(&self) -> QueueStats {
        match self {
            Q::Queue(q) => q.stats(),
            Q::Learner(l) => l.stats(),
        }
    }
    fn labeled(&self) -> &[UncertainSample] {
        match self {
            Q::Queue(q) => q.get_labeled_samples(),
            Q::Learner(l) => l.get_training_samples(),
        }
    }
}

pub fn labeling(v: &Value) -> Value {
    let st = match v["strategy"].as_str().unwrap() {
        "margin" => SelectionStrategy::MarginSampling,
        "entropy" => SelectionStrategy::EntropySampling,
        _ => SelectionStrategy::UncertaintySampling,
    };
    let calc = UncertaintyCalculator::new();
    let mut q = if v["mode"] == "queue" {
        Q::Queue(SampleQueue::new(st).with_max_pending(v["max"].as_u64().unwrap() as usize))
    } else {
        Q::Learner(
            ActiveLearner::with_strategy(st)
                .with_min_uncertainty(v["minu"].as_u64().unwrap() as f64 / 8000.0),
        )
    };
    let mut out: Vec<UncertainSample> = Vec::new();
    let mut obs = Vec::new();
    for (n, s) in v["steps"].as_array().unwrap().iter().enumerate() {
        let r = match s["op"].as_str().unwrap() {
            "add" => {
                let p = OwnershipPrediction {
                    kind: kind(s["k"].as_str().unwrap()),
                    confidence: s["c"].as_u64().unwrap() as f32 / 8.0,
                    fallback: s["fb"].as_bool().unwrap().then_some(InferredOwnership::RawPointer),
                };
                let f = OwnershipFeatures::default();
                match &mut q {
                    Q::Queue(q) => {
                        let u = calc.calculate(&p, st);
                        json!([q.enqueue(UncertainSample::new(77, format!("v{n}"), f, p, u, st)), true])
                    }
                    Q::Learner(l) => {
                        let (u, b) = l.process_prediction(format!("v{n}"), f, p);
                        json!([sc(u), b])
                    }
                }
            }
            "take" => {
                let k = s["n"].as_u64().unwrap() as usize;
                let b: Vec<UncertainSample> = match &mut q {
                    Q::Queue(q) if k == 1 => q.next_for_labeling().into_iter().collect(),
                    Q::Learner(l) if k == 1 => l.next_for_labeling().into_iter().collect(),
                    Q::Queue(q) => q.batch_for_labeling(k),
                    Q::Learner(l) => l.batch_for_labeling(k),
                };
                let r = json!(b.iter().map(|x| (x.id, sc(x.uncertainty_score))).collect::<Vec<_>>());
                out.extend(b);
                r
            }
            "label" => {
                let mut x = out.remove(s["i"].as_u64().unwrap() as usize - 1);
                let k = s["k"].as_str().unwrap();
                if k != "none" {
                    x.apply_label(kind(k));
                }
                let r = match x.prediction_correct() {
                    None => "none",
                    Some(true) => "right",
                    Some(false) => "wrong",
                };
                match &mut q {
                    Q::Queue(q) => q.submit_labeled(x),
                    Q::Learner(l) => l.submit_labeled(x),
                }
                json!(r)
            }
            "train" => {
                let t = match &mut q {
                    Q::Queue(q) => q.take_labeled_samples(),
                    Q::Learner(l) => l.take_training_samples(),
                };
                json!(t.iter().map(|x| x.id).collect::<Vec<_>>())
            }
            "clear" => {
                if let Q::Queue(q) = &mut q {
                    q.clear_pending()
                }
                json!(0)
            }
            _ => {
                if let Q::Queue(o) = &q {
                    q = Q::Queue(serde_json::from_str(&serde_json::to_string(o).unwrap()).unwrap());
                }
                json!(0)
            }
        };
        let stt = q.stats();
        let mut vis = json!({"tot": stt.total_processed, "sum": sum(&stt), "npend": stt.pending, "nlab": stt.labeled,
            "right": (stt.prediction_accuracy * stt.labeled as f64).round() as i64,
            "lab": q.labeled().iter().map(|x| x.id).collect::<Vec<_>>(),
            "labels": q.labeled().iter().map(|x| x.label.map(name)).collect::<Vec<_>>()});
        if let Q::Queue(q) = &q {
            let peek = q.peek_next().map(|x| x.id);
            let (np, nl) = (q.pending_count(), q.labeled_count());
            let mut c = q.clone();
            let p: Vec<u64> = c.batch_for_labeling(np + 3).iter().map(|x| x.id).collect();
            vis["pend"] = json!(p);
            vis["ok"] = json!(peek == p.first().copied() && np == p.len() && nl == stt.labeled && np == stt.pending
                && q.total_processed() == stt.total_processed);
        }
        obs.push(json!({"r": r, "s": vis}));
    }
    json!({"obs": obs})
}
