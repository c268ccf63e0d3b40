//! Constants mined from /repo/src at run time. Whatever the code compares
//! lengths, counts, addresses or names with is worth generating; constants
//! that the pinned tree did not have (baseline.txt) are tried more often.

use std::collections::BTreeSet;
use std::fs;
use std::path::Path;

#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub words: Vec<String>,
    pub new_ints: Vec<u64>,
    pub new_words: Vec<String>,
}

fn mine(text: &str, ints: &mut BTreeSet<u64>, words: &mut BTreeSet<String>) {
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '/' && i + 1 < b.len() && b[i + 1] == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '"' {
            let mut s = String::new();
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' && i + 1 < b.len() {
                    i += 1;
                    match b[i] {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        'r' => s.push('\r'),
                        '0' => s.push('\0'),
                        'x' if i + 2 < b.len() => {
                            let h: String = b[i + 1..i + 3].iter().collect();
                            if let Ok(v) = u8::from_str_radix(&h, 16) {
                                s.push(v as char);
                            }
                            i += 2;
                        }
                        'u' if i + 1 < b.len() && b[i + 1] == '{' => {
                            let mut h = String::new();
                            i += 2;
                            while i < b.len() && b[i] != '}' {
                                h.push(b[i]);
                                i += 1;
                            }
                            if let Some(ch) =
                                u32::from_str_radix(&h, 16).ok().and_then(std::char::from_u32)
                            {
                                s.push(ch);
                            }
                        }
                        o => s.push(o),
                    }
                } else {
                    s.push(b[i]);
                }
                i += 1;
            }
            i += 1;
            if !s.is_empty() && s.chars().count() <= 24 {
                words.insert(s);
            }
        } else if c == '\'' && i + 2 < b.len() && b[i + 1] != '\\' && b[i + 2] == '\'' {
            words.insert(b[i + 1].to_string());
            i += 3;
        } else if c == '\'' && i + 3 < b.len() && b[i + 1] == '\\' {
            // '\u{..}' or a simple escape
            if b[i + 2] == 'u' {
                let mut h = String::new();
                let mut j = i + 4;
                while j < b.len() && b[j] != '}' && j < i + 12 {
                    h.push(b[j]);
                    j += 1;
                }
                if let Some(ch) = u32::from_str_radix(&h, 16).ok().and_then(std::char::from_u32) {
                    words.insert(ch.to_string());
                }
                i = j;
            } else {
                i += 3;
            }
        } else if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_'))
        {
            let mut s = String::new();
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                if b[i] != '_' {
                    s.push(b[i]);
                }
                i += 1;
            }
            for suffix in ["usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize"] {
                if let Some(p) = s.strip_suffix(suffix) {
                    if !p.is_empty() {
                        s = p.to_string();
                    }
                    break;
                }
            }
            let v = if let Some(h) = s.strip_prefix("0x") {
                u64::from_str_radix(h, 16).ok()
            } else if let Some(h) = s.strip_prefix("0b") {
                u64::from_str_radix(h, 2).ok()
            } else {
                s.parse().ok()
            };
            if let Some(v) = v {
                ints.insert(v);
            }
        } else {
            i += 1;
        }
    }
}

fn walk(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = fs::read_dir(dir) {
        let mut v: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        v.sort();
        for p in v {
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                out.push(p);
            }
        }
    }
}

impl Dict {
    pub fn collect(src: &Path) -> (BTreeSet<u64>, BTreeSet<String>) {
        let mut ints = BTreeSet::new();
        let mut words = BTreeSet::new();
        let mut files = Vec::new();
        walk(src, &mut files);
        for f in files {
            if let Ok(t) = fs::read_to_string(&f) {
                // Test modules come last in every file; their constants are of no interest.
                let t = match t.find("#[cfg(test)]") {
                    Some(n) => t[..n].to_string(),
                    None => t,
                };
                mine(&t, &mut ints, &mut words);
            }
        }
        (ints, words)
    }

    pub fn load(src: &Path, baseline: &Path) -> Dict {
        let (ints, words) = Dict::collect(src);
        let base = fs::read_to_string(baseline).unwrap_or_default();
        let base: BTreeSet<&str> = base.lines().collect();
        let mut d = Dict::default();
        for v in ints {
            if !base.contains(format!("i {}", v).as_str()) {
                d.new_ints.push(v);
            }
            d.ints.push(v);
        }
        for w in words {
            if !base.contains(format!("w {:?}", w).as_str()) {
                d.new_words.push(w.clone());
            }
            d.words.push(w);
        }
        d
    }

    pub fn baseline(src: &Path) -> String {
        let (ints, words) = Dict::collect(src);
        let mut s = String::new();
        for v in ints {
            s += &format!("i {}\n", v);
        }
        for w in words {
            s += &format!("w {:?}\n", w);
        }
        s
    }
}
