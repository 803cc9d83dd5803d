//! Auto-dictionary: the integer and string literals that occur in the library's
//! sources. Like a fuzzer's dictionary it only steers which inputs are tried; no
//! verdict depends on it. Literals that are not in the committed baseline list are
//! tried more often.
use std::collections::BTreeSet;
use std::path::Path;

#[derive(Default, Clone, Debug)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
    pub new_ints: Vec<u64>,
    pub new_strs: Vec<String>,
}

fn lex(src: &str, ints: &mut BTreeSet<u64>, strs: &mut BTreeSet<String>) {
    let b: Vec<char> = src.chars().collect();
    let mut i = 0;
    let at = |i: usize| b.get(i).copied().unwrap_or('\0');
    while i < b.len() {
        let c = b[i];
        if c == '/' && at(i + 1) == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && at(i + 1) == '*' {
            i += 2;
            while i < b.len() && !(b[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if c == '"' {
            i += 1;
            let mut s = String::new();
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    i += 1;
                    match at(i) {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        '0' => s.push('\0'),
                        '\n' => {}
                        o => s.push(o),
                    }
                } else {
                    s.push(b[i]);
                }
                i += 1;
            }
            i += 1;
            if s.len() <= 200 {
                strs.insert(s);
            }
        } else if c == '\'' {
            // character literal or lifetime
            if at(i + 1) == '\\' {
                i += 2;
                while i < b.len() && b[i] != '\'' {
                    i += 1;
                }
                i += 1;
            } else if at(i + 2) == '\'' {
                ints.insert(at(i + 1) as u64);
                strs.insert(at(i + 1).to_string());
                i += 3;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            let start = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let t: String = b[start..i].iter().filter(|c| **c != '_').collect();
            let t = t.to_lowercase();
            let cut = |t: &str| {
                for s in ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "u128", "i128"] {
                    if let Some(x) = t.strip_suffix(s) {
                        return x.to_string();
                    }
                }
                t.to_string()
            };
            let v = if let Some(h) = t.strip_prefix("0x") {
                let h: String = cut(h);
                u64::from_str_radix(&h, 16).ok()
            } else if let Some(h) = t.strip_prefix("0b") {
                u64::from_str_radix(&cut(h), 2).ok()
            } else if let Some(h) = t.strip_prefix("0o") {
                u64::from_str_radix(&cut(h), 8).ok()
            } else {
                cut(&t).parse().ok()
            };
            if let Some(v) = v {
                ints.insert(v);
            }
        } else if c.is_alphanumeric() || c == '_' {
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}

fn walk(p: &Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(p) {
        let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        v.sort();
        for p in v {
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().is_some_and(|e| e == "rs") {
                out.push(p);
            }
        }
    }
}

pub fn scan(root: &str) -> (BTreeSet<u64>, BTreeSet<String>) {
    let mut files = vec![];
    walk(Path::new(root), &mut files);
    let mut ints = BTreeSet::new();
    let mut strs = BTreeSet::new();
    for f in files {
        if let Ok(s) = std::fs::read_to_string(&f) {
            lex(&s, &mut ints, &mut strs);
        }
    }
    (ints, strs)
}

const BASELINE: &str = include_str!("../dict_baseline.json");

pub fn load() -> Dict {
    let (mut ints, strs) = scan("/repo/src");
    // literals combined by simple arithmetic
    for k in [7u32, 8, 15, 16, 17, 20, 24, 31, 32] {
        ints.insert((1u64 << k) - 1);
        ints.insert(1u64 << k);
    }
    let base: serde_json::Value = serde_json::from_str(BASELINE).unwrap_or_default();
    let bi: BTreeSet<u64> =
        base["ints"].as_array().map(|a| a.iter().filter_map(|v| v.as_u64()).collect()).unwrap_or_default();
    let bs: BTreeSet<String> = base["strs"]
        .as_array()
        .map(|a| a.iter().filter_map(|v| v.as_str().map(String::from)).collect())
        .unwrap_or_default();
    let new_ints = ints.iter().filter(|i| !bi.contains(i)).copied().collect();
    let new_strs = strs.iter().filter(|s| !bs.contains(*s)).cloned().collect();
    Dict { ints: ints.into_iter().collect(), strs: strs.into_iter().collect(), new_ints, new_strs }
}

pub fn dump_baseline() -> String {
    let (mut ints, strs) = scan("/repo/src");
    for k in [7u32, 8, 15, 16, 17, 20, 24, 31, 32] {
        ints.insert((1u64 << k) - 1);
        ints.insert(1u64 << k);
    }
    serde_json::to_string_pretty(&serde_json::json!({"ints": ints, "strs": strs})).unwrap()
}
