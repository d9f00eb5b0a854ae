use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::fs;
use std::path::{Path, PathBuf};

/// {dir, files: {relative path: content}, main: relative path}
pub fn includes(v: &Value) -> Value {
    let dir = PathBuf::from(v["dir"].as_str().unwrap());
    for (p, c) in v["files"].as_object().unwrap() {
        let q = dir.join(p);
        fs::create_dir_all(q.parent().unwrap()).unwrap();
        fs::write(q, c.as_str().unwrap()).unwrap();
    }
    let main = dir.join(v["main"].as_str().unwrap());
    let src = fs::read_to_string(&main).unwrap();
    let fns = |r: Result<String, anyhow::Error>| match r {
        Err(_) => json!("err"),
        Ok(s) => json!(s
            .lines()
            .filter_map(|l| {
                let l = l.trim();
                let l = l.strip_prefix("pub ").unwrap_or(l);
                l.strip_prefix("fn t_").and_then(|l| l.split('(').next()).map(|x| x.to_string())
            })
            .collect::<Vec<_>>()),
    };
    let a = fns(decy_core::transpile_with_includes(&src, main.parent()));
    let tf = decy_core::transpile_file(&main, &decy_core::ProjectContext::new());
    let deps = match &tf {
        Err(_) => json!("err"),
        Ok(t) => {
            let base = dir.canonicalize().unwrap();
            let s: BTreeSet<String> = t
                .dependencies
                .iter()
                .map(|p: &PathBuf| {
                    let c = Path::new(p).canonicalize().unwrap_or(p.clone());
                    c.strip_prefix(&base).map(|x| x.display().to_string()).unwrap_or_else(|_| c.display().to_string())
                })
                .collect();
            json!(s)
        }
    };
    let b = fns(tf.map(|t| t.rust_code));
    let c = fns(decy_core::transpile_from_file_path(&main));
    let _ = fs::remove_dir_all(&dir);
    json!({"includes": a, "file": b, "path": c, "deps": deps})
}
