use decy_core::DependencyGraph;
use serde_json::{json, Value};
use std::fs;
use std::path::PathBuf;

/// {n, e: [[from, to]], perm: order in which the files are added, mode: api|files, dir, style}
pub fn order(v: &Value) -> Value {
    let n = v["n"].as_u64().unwrap() as usize;
    let edges: Vec<(usize, usize)> = v["e"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| (p[0].as_u64().unwrap() as usize, p[1].as_u64().unwrap() as usize))
        .collect();
    let perm: Vec<usize> =
        v["perm"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let dir = PathBuf::from(v["dir"].as_str().unwrap());
    let style = v["style"].as_u64().unwrap_or(0) as usize;
    // odd files are in a sub directory in some styles
    let sub = style % 2 == 1;
    let rel = |k: usize| {
        if sub && k % 2 == 1 { format!("sub/f{k}.h") } else { format!("f{k}.c") }
    };
    let path = |k: usize| dir.join(rel(k));
    let g = if v["mode"] == "api" {
        let mut g = DependencyGraph::new();
        for &k in &perm {
            g.add_file(&path(k));
        }
        g.add_file(&path(perm[0]));
        for &(a, b) in &edges {
            g.add_dependency(&path(a), &path(b));
        }
        g
    } else {
        fs::create_dir_all(dir.join("sub")).unwrap();
        fs::write(dir.join("other.h"), "int other;\n").unwrap();
        for k in 1..=n {
            let mut s = String::from("/* file */\n#include <stdio.h>\n#include \"other.h\"\n");
            let from_sub = rel(k).starts_with("sub/");
            for (i, &(a, b)) in edges.iter().enumerate() {
                if a != k {
                    continue;
                }
                let t = rel(b);
                let t = match (from_sub, t.strip_prefix("sub/")) {
                    (true, Some(x)) => x.to_string(),
                    // a parent directory is reached by an absolute path here
                    (true, None) => path(b).display().to_string(),
                    (false, _) => t,
                };
                s += &match (style / 2 + i) % 4 {
                    0 => format!("#include \"{t}\"\n"),
                    1 => format!("  #include   \"{t}\"  // needed\n"),
                    2 => format!("#include\"{t}\"\n#include \"{t}\"\n"),
                    _ => format!("\t#include \"{t}\"\r\n"),
                };
            }
            for b in 1..=n {
                if !edges.contains(&(k, b)) {
                    s += &format!("// #include \"{}\"\nchar *s{b} = \"#include f{b}.c\";\n", rel(b));
                }
            }
            s += &format!("int v{k};\n");
            fs::write(path(k), s).unwrap();
        }
        let files: Vec<PathBuf> = perm.iter().map(|&k| path(k)).collect();
        match DependencyGraph::from_files(&files) {
            Ok(g) => g,
            Err(e) => return json!({ "fail": format!("{e:#}") }),
        }
    };
    let mut has = Vec::new();
    for a in 1..=n {
        for b in 1..=n {
            if g.has_dependency(&path(a), &path(b)) {
                has.push((a, b));
            }
        }
    }
    let cnt = g.file_count();
    let r = g.topological_sort();
    let _ = fs::remove_dir_all(&dir);
    match r {
        Err(_) => json!({"err": true, "ord": [], "h": has, "cnt": cnt}),
        Ok(o) => {
            let ord: Vec<usize> =
                o.iter().map(|p| (1..=n).find(|&k| path(k) == *p).unwrap_or(0)).collect();
            json!({"err": false, "ord": ord, "h": has, "cnt": cnt})
        }
    }
}
