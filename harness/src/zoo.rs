//! Replaying vectors into generated Rust types: line field T is the type's index.
use crate::conv::Conv;
use crate::dynamic::{Val, bytes};
use crate::judge::{Out, one_decode, one_encode};
use crate::run::Progress;
use crate::words::{Sweep, intervals};
use serde::Serialize;
use serde::de::DeserializeOwned;
use serde_json::{Value as J, json};
use serde_xdr::error::Error;
use std::io::BufRead;

pub struct Entry {
    pub enc: fn(&Val) -> Result<Vec<u8>, Error>,
    pub dec: fn(&[u8]) -> Result<Val, Error>,
}

pub fn entry<T: Conv + Serialize + DeserializeOwned>() -> Entry {
    Entry {
        enc: |v| serde_xdr::to_bytes(&T::from_val(v)),
        dec: |b| serde_xdr::from_bytes::<T>(b).map(|x| x.to_val()),
    }
}

/// replay FILE SHARD SHARDS PROGRESS, or words FILE SHARD SHARDS PROGRESS SEED ALL
pub fn main(table: &[Entry]) {
    let a: Vec<String> = std::env::args().collect();
    let (shard, shards) = (a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap());
    let p = Progress::new(Some(&a[5]), std::time::Duration::from_secs(20));
    let f = std::io::BufReader::with_capacity(1 << 20, std::fs::File::open(&a[2]).unwrap());
    let mut out = Out::default();
    let (mut enc, mut dec) = (0u64, 0u64);
    for (i, line) in f.lines().enumerate() {
        let i = i as u64;
        let line = line.unwrap();
        if out.enough() {
            break;
        }
        if a[1] == "replay" && i % shards != shard || line.is_empty() {
            continue;
        }
        let j: J = serde_json::from_str(&line).unwrap();
        let e = &table[j["T"].as_u64().unwrap() as usize];
        p.at(i);
        if j["p"] == "words" {
            let s = Sweep { is: intervals(&j["is"]), shard, shards, seed: a[6].parse().unwrap(), at: &|| p.at(i) };
            dec += s.some(&mut out, i, &|b| (e.dec)(b));
        } else if j["p"] == "enc" {
            enc += 1;
            let v = Val::parse(&j["v"]);
            let want = j["r"]["ok"].as_bool().unwrap().then(|| bytes(&j["r"]["b"]));
            one_encode(&mut out, i, 0, &v, want.as_deref(), false, &|| (e.enc)(&v), Some(&|b: &[u8]| (e.dec)(b)));
        } else {
            dec += 1;
            one_decode(&mut out, i, 0, false, &bytes(&j["w"]), &j["r"], &|b| (e.dec)(b));
        }
    }
    p.done();
    println!("{}", json!({"done": true, "enc": enc, "dec": dec, "rep": 0, "runs": enc + dec, "bad": out.bad}));
}
