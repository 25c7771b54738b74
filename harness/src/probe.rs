//! Replaying the specification's decodings into generated code: line field t is the type, x the bytes,
//! d what Rust must show (nothing: refused), b what encoding the value must give if not x.
//! A text with ~ may also be refused; ? stands for text that is not compared.
use crate::dynamic::bytes;
use crate::run::{Progress, guard};
use serde::Serialize;
use serde::de::DeserializeOwned;
use serde_json::{Value as J, json};
use std::io::BufRead;

pub type Fun = fn(&[u8], bool) -> Result<(String, Vec<u8>), String>;

pub fn entry<T: std::fmt::Debug + Serialize + DeserializeOwned + Default + Clone>(b: &[u8], back: bool) -> Result<(String, Vec<u8>), String> {
    let v: T = serde_xdr::from_bytes(b).map_err(|e| e.to_string())?;
    let text = format!("{v:?}");
    let out = if back { serde_xdr::to_bytes(&v).map_err(|e| format!("ENCODING {e}"))? } else { vec![] };
    Ok((text, out))
}

/// The wrappers of opaque data are not part of the value.
fn plain(text: &str) -> String {
    let mut t = text.to_string();
    for w in ["VariableArray { data: ", "FixedArray { data: "] {
        while let Some(i) = t.find(w) {
            let end = i + t[i..].find(']').unwrap() + 1;
            let data = t[i + w.len()..end].to_string();
            t.replace_range(i..(end + 2).min(t.len()), &data);
        }
    }
    t
}

/// FILE PROGRESS
pub fn main(table: &[(&str, Fun)], numbers: &[(&str, i128)]) {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "numbers" {
        for (n, v) in numbers {
            println!("{}", json!({"n": n, "v": v.to_string()}));
        }
        return;
    }
    let table: std::collections::HashMap<&str, Fun> = table.iter().copied().collect();
    let p = Progress::new(Some(&a[2]), std::time::Duration::from_secs(20));
    let f = std::io::BufReader::with_capacity(1 << 20, std::fs::File::open(&a[1]).unwrap());
    let (mut runs, mut bads) = (0u64, 0u64);
    for (i, line) in f.lines().enumerate() {
        let j: J = serde_json::from_str(&line.unwrap()).unwrap();
        p.at(i as u64);
        runs += 1;
        let x = bytes(&j["x"]);
        let want = j["d"].as_array().unwrap().first().map(|d| d.as_str().unwrap());
        let odd = want.is_some_and(|w| w.contains('~'));
        let blind = want.is_some_and(|w| w.contains('?'));
        let back = j["b"].as_array().unwrap().first().map(bytes).unwrap_or_else(|| x.clone());
        let fun = table[format!("{}::{}", j["m"].as_str().unwrap(), j["t"].as_str().unwrap()).as_str()];
        let got = guard(|| fun(&x, want.is_some() && !odd));
        let (bad, got) = match (want, got) {
            (_, Err(e)) => ("panic", e),
            (Some(_), Ok(Err(e))) if e.starts_with("ENCODING") => ("not-encoded", e),
            (None, Ok(Ok((t, _)))) => ("accepted", t),
            (Some(_), Ok(Err(e))) if !odd => ("refused", e),
            (Some(w), Ok(Ok((t, _)))) if !blind && plain(&t) != w.replace('~', "") => ("different", t),
            (Some(_), Ok(Ok((_, b)))) if !odd && b != back => ("encoded", format!("{b:?}")),
            _ => continue,
        };
        bads += 1;
        if bads <= 200 {
            println!("{}", json!({"bad": bad, "line": i, "got": got}));
        }
    }
    p.done();
    println!("{}", json!({"done": true, "runs": runs, "bad": bads}));
}

// ---- enums and numbers -----------------------------------------------------------------
pub struct Conversions {
    cast: Vec<(String, i32)>,
    as_ref: Vec<(String, i32)>,
    try_from: Vec<(i32, Option<String>)>,
    index: Vec<(String, i32)>,
}

type Std<T> = (fn(&T) -> i32, fn(i32) -> Option<T>);

pub fn conversions<T: std::fmt::Debug>(vs: Vec<(T, i32)>, std: Option<Std<T>>, index: Option<fn(&T) -> i32>, ns: &[i32]) -> Conversions {
    let all = |f: fn(&T) -> i32| vs.iter().map(|(v, _)| (format!("{v:?}"), f(v))).collect();
    Conversions {
        cast: vs.iter().map(|(v, n)| (format!("{v:?}"), *n)).collect(),
        as_ref: std.map(|s| all(s.0)).unwrap_or_default(),
        try_from: std.map(|s| ns.iter().map(|n| (*n, s.1(*n).map(|v| format!("{v:?}")))).collect()).unwrap_or_default(),
        index: index.map(all).unwrap_or_default(),
    }
}

/// FILE: lines {t, ns}, the numbers to convert to each enum
pub fn convert(table: &[(&str, fn(&[i32]) -> Conversions)]) {
    let table: std::collections::HashMap<_, _> = table.iter().copied().collect();
    let f = std::io::BufReader::new(std::fs::File::open(std::env::args().nth(1).unwrap()).unwrap());
    for line in f.lines() {
        let j: J = serde_json::from_str(&line.unwrap()).unwrap();
        let t = j["t"].as_str().unwrap();
        let Some(fun) = table.get(t) else { continue };
        let ns: Vec<i32> = j["ns"].as_array().unwrap().iter().map(|n| n.as_i64().unwrap() as i32).collect();
        match guard(|| fun(&ns)) {
            Ok(c) => println!("{}", json!({"t": t, "cast": c.cast, "as_ref": c.as_ref, "try_from": c.try_from, "index": c.index})),
            Err(e) => println!("{}", json!({"t": t, "panic": e})),
        }
    }
}

// ---- default values ----------------------------------------------------------------------
pub fn made<T: std::fmt::Debug + Default + Serialize + DeserializeOwned>() -> Result<(Vec<u8>, String), String> {
    let v = T::default();
    let x = serde_xdr::to_bytes(&v).map_err(|e| e.to_string())?;
    let d = format!("{v:?}");
    match serde_xdr::from_bytes::<T>(&x) {
        Ok(w) if format!("{w:?}") == d => Ok((x, d)),
        Ok(w) => Err(format!("{d} read back as {w:?} from {x:?}")),
        Err(e) => Err(format!("{d} not read back from {x:?}: {e}")),
    }
}

/// FROM: the first of the values to make
pub fn defaults(table: &[(&str, fn() -> Result<(Vec<u8>, String), String>)]) {
    let from: usize = std::env::args().nth(1).unwrap().parse().unwrap();
    for (i, (t, fun)) in table.iter().enumerate().skip(from) {
        println!("{}", json!({"i": i, "t": t}));
        match guard(fun) {
            Ok(Ok((x, d))) => println!("{}", json!({"i": i, "t": t, "x": x, "d": plain(&d)})),
            Ok(Err(e)) => println!("{}", json!({"i": i, "t": t, "refused": e})),
            Err(e) => println!("{}", json!({"i": i, "t": t, "panic": e})),
        }
    }
    println!("{}", json!({"done": true}));
}
