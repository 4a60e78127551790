//! Collects the integer and short string literals of the repository's sources: like a fuzzer's
//! dictionary, they only make the generator pick the numbers and texts the code mentions more
//! often than chance would. No check depends on them.
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

fn files(d: &Path, v: &mut Vec<PathBuf>) {
    let Ok(es) = std::fs::read_dir(d) else { return };
    for e in es.flatten() {
        let p = e.path();
        if p.is_dir() {
            if !p.ends_with("protos") && !p.ends_with("bin") {
                files(&p, v);
            }
        } else if p.extension().map_or(false, |x| x == "rs") {
            v.push(p);
        }
    }
}

fn main() {
    let src = Path::new("../../repo/src");
    println!("cargo:rerun-if-changed=../../repo/src");
    let mut v = vec![];
    files(src, &mut v);
    let (mut ints, mut texts) = (BTreeSet::new(), BTreeSet::new());
    for f in v {
        println!("cargo:rerun-if-changed={}", f.display());
        let t = std::fs::read_to_string(&f).unwrap_or_default();
        let mut word = String::new();
        for c in t.chars().chain(" ".chars()) {
            if c.is_ascii_alphanumeric() || c == '_' {
                word.push(c);
                continue;
            }
            let w = std::mem::take(&mut word).replace('_', "");
            if !w.starts_with(|c: char| c.is_ascii_digit()) {
                continue;
            }
            let (digits, radix) = match w.get(..2) {
                Some("0x") => (&w[2..], 16),
                Some("0b") => (&w[2..], 2),
                _ => (&w[..], 10),
            };
            let digits = match radix {
                16 => digits.trim_end_matches("u8").trim_end_matches("u64"),
                _ => digits.split(|c| matches!(c, 'u' | 'i' | 'f' | 'e')).next().unwrap(),
            };
            if let Ok(n) = i64::from_str_radix(digits, radix) {
                ints.insert(n);
            }
        }
        for l in t.lines() {
            for (i, s) in l.split('"').enumerate() {
                if i % 2 == 1 && s.chars().count() <= 16 && !s.contains('\\') && !s.contains('{') {
                    texts.insert(s.to_string());
                }
            }
        }
    }
    let out = format!("pub const INTS: &[i64] = &{:?};\npub const TEXTS: &[&str] = &{:?};\n", ints, texts).replace("&{", "&[").replace("};", "];");
    std::fs::write(Path::new(&std::env::var("OUT_DIR").unwrap()).join("literals.rs"), out).unwrap();
}
