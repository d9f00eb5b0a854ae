use serde_json::{json, Value};
use std::path::Path;

/// {"c": source, "mode": entry point, "dir"/"path": for the file based ones}
pub fn transpile(v: &Value) -> Value {
    let c = v["c"].as_str().unwrap_or("");
    let mode = v["mode"].as_str().unwrap_or("plain");
    let r: Result<String, String> = match mode {
        "plain" => decy_core::transpile(c).map_err(|e| format!("{e:#}")),
        "trace" => decy_core::transpile_with_trace(c).map(|x| x.0).map_err(|e| format!("{e:#}")),
        "verify" => match decy_core::transpile_with_verification(c) {
            Ok(r) if r.errors.is_empty() => Ok(r.rust_code),
            Ok(r) => Err(r.errors.join("; ")),
            Err(e) => Err(format!("{e:#}")),
        },
        "includes" => {
            decy_core::transpile_with_includes(c, v["dir"].as_str().map(Path::new))
                .map_err(|e| format!("{e:#}"))
        }
        "box" => decy_core::transpile_with_box_transform(c).map_err(|e| format!("{e:#}")),
        "file" => decy_core::transpile_file(
            Path::new(v["path"].as_str().unwrap()),
            &decy_core::ProjectContext::new(),
        )
        .map(|f| f.rust_code)
        .map_err(|e| format!("{e:#}")),
        "filepath" => decy_core::transpile_from_file_path(Path::new(v["path"].as_str().unwrap()))
            .map_err(|e| format!("{e:#}")),
        m => panic!("mode {m}"),
    };
    match r {
        Ok(s) => json!({ "rust": s }),
        Err(e) => json!({ "err": e }),
    }
}
