use decy_analyzer::lock_analysis::LockAnalyzer;
use decy_hir::HirFunction;
use decy_parser::parser::CParser;
use decy_verify::lock_verify::LockDisciplineChecker;
use serde_json::{json, Value};

/// The lock analysis of groups of functions of a C file, statement by
/// statement as the front end sees them.  Case k has the functions ck_f0, ck_f1, ...
pub fn locks(v: &Value) -> Value {
    let ast = match CParser::new().and_then(|p| p.parse(v["c"].as_str().unwrap())) {
        Ok(a) => a,
        Err(e) => return json!({"parse": e.to_string()}),
    };
    let all: std::collections::HashMap<String, HirFunction> =
        ast.functions().iter().map(|f| (f.name.clone(), HirFunction::from_ast_function(f))).collect();
    let out: Vec<Value> = v["n"]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(k, n)| {
            let fs: Vec<HirFunction> = (0..n.as_u64().unwrap())
                .map(|i| all.get(&format!("c{k}_f{i}")).expect("function").clone())
                .collect();
            one(&fs, v["mutexes"].as_array().unwrap())
        })
        .collect();
    json!({"cases": out})
}

fn one(fs: &[HirFunction], mutexes: &[Value]) -> Value {
    let a = LockAnalyzer::new();
    let ck = LockDisciplineChecker::new(&a);
    let out: Vec<Value> = fs
        .iter()
        .map(|f| {
            let map = a.analyze_lock_data_mapping(f);
            let rep = ck.check_all(f);
            let mut prot = serde_json::Map::new();
            for m in mutexes {
                let m = m.as_str().unwrap();
                let mut d = map.get_protected_data(m);
                d.sort();
                for x in &d {
                    assert!(map.is_protected_by(x, m));
                }
                prot.insert(m.into(), json!(d));
            }
            json!({
                "len": f.body().len(),
                "regions": a.find_lock_regions(f).iter().map(|r| json!({"m": r.lock_name, "from": r.start_index, "to": r.end_index})).collect::<Vec<_>>(),
                "prot": prot,
                "discipline": a.check_lock_discipline(f),
                "exposed": ck.check_unprotected_access(f),
                "clean": rep.is_clean(), "nviol": rep.lock_violations, "nexp": rep.unprotected_accesses,
            })
        })
        .collect();
    json!({"fn": out, "deadlocks": ck.check_deadlock_risk(fs).len()})
}
