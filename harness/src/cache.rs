use decy_core::{TranspilationCache, TranspiledFile};
use serde_json::{json, Value};
use std::fs;
use std::path::{Path, PathBuf};

pub fn cache(v: &Value) -> Value {
    let dir = PathBuf::from(v["dir"].as_str().unwrap());
    fs::create_dir_all(&dir).unwrap();
    let store = dir.join("store");
    let p = |f: &Value| dir.join(f.as_str().unwrap());
    let salt = v["steps"].as_array().unwrap().len() as u64;
    // the versions of a file differ in one place: at the start, behind a long common
    // prefix, in one blank, in one line end, or in a byte that is not valid UTF-8
    let content = |f: &Value, v: u64| -> Vec<u8> {
        let f = f.as_str().unwrap();
        let k = (salt + f.as_bytes()[0] as u64) % 6;
        let mut b = format!("/* {f} */\n").into_bytes();
        match k {
            0 => b.push(b'0' + v as u8),
            1 => {
                b.extend(std::iter::repeat(b'x').take(70_000));
                b.push(b'0' + v as u8);
            }
            2 => b.extend(std::iter::repeat(b' ').take(v as usize)),
            3 => b.extend(std::iter::repeat(b'\n').take(v as usize)),
            4 => b.push(0xf0 + v as u8),
            _ => {
                b.push(b'0' + v as u8);
                b.extend(std::iter::repeat(b'y').take(9_000));
            }
        }
        b
    };
    for f in ["a", "b", "h", "i"] {
        fs::write(dir.join(f), content(&json!(f), 1)).unwrap();
    }
    let mut c = TranspilationCache::with_directory(&store);
    let mut obs = Vec::new();
    for s in v["steps"].as_array().unwrap() {
        let o = match s["op"].as_str().unwrap() {
            "write" => {
                fs::write(p(&s["f"]), content(&s["f"], s["v"].as_u64().unwrap())).unwrap();
                json!(true)
            }
            "delete" => {
                fs::remove_file(p(&s["f"])).unwrap();
                json!(true)
            }
            "insert" => {
                let deps: Vec<PathBuf> = s["d"].as_array().unwrap().iter().map(&p).collect();
                let t = TranspiledFile::new(
                    p(&s["f"]),
                    format!("result {}", s["id"]),
                    deps,
                    vec![format!("f{}", s["id"])],
                    String::new(),
                );
                c.insert(&p(&s["f"]), &t);
                json!(true)
            }
            "get" => {
                let r = c
                    .get(&p(&s["f"]))
                    .map(|t| {
                        assert_eq!(t.source_path, p(&s["f"]));
                        let n: u64 = t.rust_code.strip_prefix("result ").unwrap().parse().unwrap();
                        assert_eq!(t.functions_exported, vec![format!("f{n}")]);
                        n
                    })
                    .unwrap_or(0);
                let st = c.statistics();
                json!({"r": r, "h": st.hits, "m": st.misses, "t": st.total_files})
            }
            "save" => json!(c.save().is_ok()),
            "crash" => {
                truncate(&c, &store, s["at"].as_u64().unwrap_or(500));
                json!(true)
            }
            "load" => match TranspilationCache::load(&store) {
                Ok(n) => {
                    c = n;
                    json!(1)
                }
                Err(_) => json!(0),
            },
            "clear" => {
                c.clear();
                json!(true)
            }
            x => panic!("op {x}"),
        };
        obs.push(o);
    }
    let _ = fs::remove_dir_all(&dir);
    json!({ "obs": obs })
}

/// The write of the cache file stops in the middle: a proper, non-empty prefix of
/// what `save` would have written is left.
fn truncate(c: &TranspilationCache, store: &Path, at: u64) {
    let f = store.join("cache.json");
    c.save().unwrap();
    let all = fs::read(&f).unwrap();
    let n = all.len();
    let k = ((n as u64 * at / 1000) as usize).min(n.saturating_sub(1));
    fs::write(&f, &all[..k]).unwrap();
}
