//! codec replay FILE SHARD SHARDS PROGRESS    vectors printed by TLC, into the real code
//! codec mem FILE SHARD SHARDS PROGRESS       the same, measuring memory
//! codec trace SEED ROUNDS OUT WHICH          random runs of the real code, to be checked by TLC
//! codec words FILE SHARD SHARDS PROGRESS SEED ALL  every word (ALL = 1) or many, read as types that are one word
//! codec fuzz SEED ROUNDS PROGRESS            random bytes: outcome and memory only
use serde_json::{Value as J, json};
use std::io::{BufRead, BufWriter, Write};
use std::rc::Rc;
use std::time::Duration;
use vh::alloc::{Counting, peak};
use vh::dynamic::{Ty, Val, bytes, class, decode, encode, set_mode};
use vh::native::{Do, Nat, for_all};
use vh::judge::{Out, err_json, one_decode, one_encode};
use vh::rng::Rng;
use vh::run::{Progress, guard};

#[global_allocator]
static A: Counting = Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let run = move || {
        let n = |i: usize| a[i].parse::<u64>().unwrap();
        match a[1].as_str() {
        "replay" => replay(&a[2], n(3), n(4), &a[5], false),
        "mem" => replay(&a[2], n(3), n(4), &a[5], true),
        "trace" => trace(n(2), n(3), &a[4], &a[5]),
        "fuzz" => fuzz(n(2), n(3), &a[4]),
        "words" => words(&a[2], n(3), n(4), &a[5], n(6), n(7)),
        c => panic!("command {c}"),
    }};
    // the harness's own values nest, too: the main thread's stack must not be the limit
    std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap().join().unwrap();
}

fn replay(file: &str, shard: u64, shards: u64, progress: &str, mem: bool) {
    let p = Progress::new(Some(progress), Duration::from_secs(20));
    let f = std::io::BufReader::with_capacity(1 << 20, std::fs::File::open(file).unwrap());
    let mut out = Out::default();
    let (mut enc, mut dec, mut rep, mut worst) = (0u64, 0u64, 0u64, 0usize);
    for (i, line) in f.lines().enumerate() {
        let i = i as u64;
        if i % shards != shard {
            continue;
        }
        if out.enough() {
            break;
        }
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let j: J = serde_json::from_str(&line).unwrap();
        let t = Rc::new(Ty::parse(&j["t"]));
        p.at(i);
        match j["p"].as_str().unwrap() {
            "enc" if !mem => {
                enc += 1;
                let v = Val::parse(&j["v"]);
                let want = j["r"]["ok"].as_bool().unwrap().then(|| bytes(&j["r"]["b"]));
                let boom = want.is_none() && j["r"]["e"] == json!(["Custom"]);
                for m in 0..2 {
                    set_mode(m);
                    let dec = |b: &[u8]| decode(&t, b);
                    let dec: Option<&dyn Fn(&[u8]) -> _> = if encode_only(&t) { None } else { Some(&dec) };
                    one_encode(&mut out, i, m, &v, want.as_deref(), boom, &|| encode(&t, &v), dec);
                }
            }
            "dec" => {
                dec += 1;
                let w = bytes(&j["w"]);
                if mem {
                    for m in 0..2 {
                        set_mode(m);
                        let (r, used) = peak(|| guard(|| decode(&t, &w).map_err(|e| class(&e))));
                        worst = worst.max(used);
                        // the harness's values take at most 40 bytes per node, doubled twice while growing
                        if used > (256 << 10) + 256 * w.len() {
                            out.say(i, "mem", m, json!({"held": used, "supplied": w.len(), "panic": r.is_err()}));
                        }
                    }
                    continue;
                }
                for m in 0..2 {
                    set_mode(m);
                    one_decode(&mut out, i, m, encode_only(&t), &w, &j["r"], &|b| decode(&t, b));
                }
            }
            "rep" => {
                rep += 1;
                one_rep(&mut out, i, &t, &j, mem);
            }
            "deep" => {
                rep += 1;
                one_deep(&mut out, i, &t, &j, mem);
            }
            _ => {}
        }
    }
    p.done();
    println!("{}", json!({"done": true, "enc": enc, "dec": dec, "rep": rep, "bad": out.bad, "worst": worst}));
}

fn encode_only(t: &Ty) -> bool {
    match t {
        Ty::CSeq(_) | Ty::CMap(_) | Ty::CBytes | Ty::CStr | Ty::VBig(..) | Ty::USeq | Ty::UMap | Ty::I128 | Ty::U128 | Ty::Bomb => true,
        Ty::Opt(e) | Ty::New(e) | Ty::Seq(e) | Ty::Arr(e, _) => encode_only(e),
        Ty::Map(a, d) => encode_only(a) || encode_only(d),
        Ty::Tup(ts) | Ty::TStruct(ts) | Ty::Struct(ts) => ts.iter().any(encode_only),
        Ty::Enum(vs) => vs.iter().any(|v| v.1.iter().any(encode_only)),
        _ => false,
    }
}

/// n copies of an element: head, n times body, tail
fn one_rep(out: &mut Out, i: u64, t: &Rc<Ty>, j: &J, mem: bool) {
    let n = j["n"].as_u64().unwrap() as usize;
    let mut want = bytes(&j["h"]);
    want.extend(bytes(&j["b"]).repeat(n));
    want.extend(bytes(&j["z"]));
    let v = match j["form"].as_str().unwrap() {
        "s" => Val::S(vec![bytes(&j["v"])[0]; n]),
        "xs" => Val::Xs(vec![Val::parse(&j["v"]); n]),
        "kv" => Val::Kv(vec![(Val::parse(&j["v"]["xs"][0]), Val::parse(&j["v"]["xs"][1])); n]),
        f => panic!("form {f}"),
    };
    one_big(out, i, t, &v, &want, j, mem);
}

/// a value wrapped n times: n heads, body, n tails
fn one_deep(out: &mut Out, i: u64, t: &Ty, j: &J, mem: bool) {
    let n = j["n"].as_u64().unwrap() as usize;
    let (tw, vw) = (Ty::parse(&j["tw"]), Val::parse(&j["vw"]));
    let (mut t, mut v) = (t.clone(), Val::parse(&j["v"]));
    for _ in 0..n {
        t = tw.fill(&t);
        v = vw.fill(&v);
    }
    let mut want = bytes(&j["h"]).repeat(n);
    want.extend(bytes(&j["b"]));
    want.extend(bytes(&j["z"]).repeat(n));
    one_big(out, i, &Rc::new(t), &v, &want, j, mem);
}

fn one_big(out: &mut Out, i: u64, t: &Rc<Ty>, v: &Val, want: &[u8], j: &J, mem: bool) {
    let numbers = |k: &str| j[k].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect::<Vec<_>>();
    for m in 0..2 {
        set_mode(m);
        let short = |b: &[u8]| json!({"len": b.len(), "head": b[..b.len().min(16)]});
        match guard(|| encode(t, v)) {
            Err(msg) => out.say(i, "panic", m, json!({"panic": msg})),
            Ok(Err(e)) => out.say(i, "enc-refused", m, err_json(&e)),
            Ok(Ok(b)) => {
                if b != want {
                    out.say(i, "enc-bytes", m, short(&b));
                }
                if mem {
                    let (_, used) = peak(|| guard(|| decode(t, &b).is_ok()));
                    if used > (256 << 10) + 256 * b.len() {
                        out.say(i, "mem", m, json!({"held": used, "supplied": b.len()}));
                    }
                }
                match guard(|| decode(t, &b)) {
                    Err(msg) => out.say(i, "trip-panic", m, json!({"panic": msg})),
                    Ok(Ok(x)) if x == *v => {}
                    Ok(Ok(_)) => out.say(i, "trip", m, json!("another value")),
                    Ok(Err(e)) => out.say(i, "trip", m, err_json(&e)),
                }
            }
        }
        let refused = |out: &mut Out, w: &[u8], class_: &str, x: u64| match guard(|| decode(t, w)) {
            Err(msg) => out.say(i, "panic", m, json!({"panic": msg})),
            Ok(Ok(_)) => out.say(i, "dec-accepted", m, short(w)),
            Ok(Err(e)) => {
                let (c, y) = class(&e);
                if c != class_ || (x > 0 && y != x) {
                    out.say(i, "dec-class", m, err_json(&e));
                }
            }
        };
        for c in numbers("cuts") {
            refused(out, &want[..c], "NotEnough", 0);
        }
        for x in numbers("exts") {
            let mut more = want.to_vec();
            more.resize(want.len() + x, 0);
            refused(out, &more, "Trailing", x as u64);
        }
    }
}

// ---- recording the real code --------------------------------------------------------
struct Rec<'a, W: Write> {
    r: Rng,
    p: &'a Progress,
    w: W,
    n: u64,
    rounds: u64,
    which: &'a str, // "enc", "trip" (undamaged), "cut" (cut or extended) or "dec" (damaged)
}

fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    match r.below(7) {
        0 => b.truncate(r.below(b.len() as u64 + 1) as usize),
        1 => b.extend((0..=r.below(9)).map(|_| r.edgy() as u8)),
        2 | 3 if !b.is_empty() => {
            let i = r.below(b.len() as u64) as usize;
            b[i] = r.edgy() as u8;
        }
        4 if b.len() >= 4 => {
            let i = r.below(b.len() as u64 / 4) as usize * 4;
            b[i..i + 4].copy_from_slice(&(r.edgy() as u32).to_be_bytes());
        }
        5 if b.len() >= 8 => {
            let i = r.below(b.len() as u64 / 4) as usize * 4;
            b.drain(i..i + 4);
        }
        _ => {}
    }
}

fn has_map(t: &Ty) -> bool {
    match t {
        Ty::Map(..) => true,
        Ty::Opt(e) | Ty::New(e) | Ty::Seq(e) | Ty::Arr(e, _) => has_map(e),
        Ty::Tup(ts) | Ty::TStruct(ts) | Ty::Struct(ts) => ts.iter().any(has_map),
        Ty::Enum(vs) => vs.iter().any(|v| v.1.iter().any(has_map)),
        _ => false,
    }
}

impl<W: Write> Do for Rec<'_, W> {
    fn on<T: Nat>(&mut self, name: &'static str) {
        let t = T::ty();
        let tj = t.json();
        let maps = has_map(&t);
        for _ in 0..self.rounds {
            self.p.at(self.n);
            self.n += 1;
            let x = T::make(&mut self.r, 0);
            let b = match guard(|| serde_xdr::to_bytes(&x)) {
                Err(m) => {
                    println!("{}", json!({"bad": "panic", "type": name, "v": x.val().json(), "got": m}));
                    continue;
                }
                Ok(Err(e)) => {
                    writeln!(self.w, "{}", json!({"p": "enc", "t": tj, "v": x.val().json(), "ok": false, "b": [], "e": class(&e).0})).unwrap();
                    continue;
                }
                Ok(Ok(b)) => b,
            };
            if b.len() > 1500 {
                continue;
            }
            writeln!(self.w, "{}", json!({"p": "enc", "t": tj, "v": x.val().json(), "ok": true, "b": b, "e": ""})).unwrap();
            let rounds = match self.which {
                "enc" => 0..0,
                "trip" => 0..1,
                _ => 1..4,
            };
            for round in rounds {
                let mut w = b.clone();
                if self.which == "cut" {
                    if round == 1 {
                        w.extend((0..=self.r.below(9)).map(|_| self.r.edgy() as u8));
                    } else {
                        w.truncate(self.r.below(w.len() as u64) as usize);
                    }
                } else {
                    for _ in 0..round {
                        damage(&mut self.r, &mut w);
                    }
                }
                let line = match guard(|| serde_xdr::from_bytes::<T>(&w)) {
                    Err(m) => {
                        println!("{}", json!({"bad": "panic", "type": name, "w": w, "got": m}));
                        continue;
                    }
                    Ok(Ok(y)) => {
                        // the second chance: what was read goes back to the same bytes or says why not
                        let again = guard(|| serde_xdr::to_bytes(&y));
                        let b2 = match again {
                            Ok(Ok(b2)) => b2,
                            o => {
                                println!("{}", json!({"bad": "panic", "type": name, "w": w, "got": format!("{o:?}")}));
                                continue;
                            }
                        };
                        json!({"p": if maps { "decmap" } else { "dec" }, "t": tj, "w": w, "ok": true, "v": y.val().json(), "e": "", "x": 0, "b": b2})
                    }
                    Ok(Err(e)) => {
                        let (c, x) = class(&e);
                        json!({"p": if maps { "decmap" } else { "dec" }, "t": tj, "w": w, "ok": false, "v": {"u": 0}, "e": c, "x": x, "b": []})
                    }
                };
                writeln!(self.w, "{line}").unwrap();
            }
        }
    }
}

fn trace(seed: u64, rounds: u64, out: &str, which: &str) {
    let p = Progress::new(None, Duration::from_secs(20));
    let w = BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rec = Rec { r: Rng(seed), p: &p, w, n: 0, rounds, which };
    for_all(&mut rec);
    rec.w.flush().unwrap();
    p.done();
    println!("{}", json!({"done": true, "cases": rec.n}));
}

// ---- arbitrary bytes -------------------------------------------------------------------
struct Fuzz<'a> {
    r: Rng,
    p: &'a Progress,
    n: u64,
    rounds: u64,
    worst: f64,
}

impl Do for Fuzz<'_> {
    fn on<T: Nat>(&mut self, name: &'static str) {
        for _ in 0..self.rounds {
            self.p.at(self.n);
            self.n += 1;
            let mut w = if self.r.chance(4) {
                serde_xdr::to_bytes(&T::make(&mut self.r, 0)).unwrap_or_default()
            } else {
                let n = self.r.below(24);
                let mut w = vec![];
                for _ in 0..n {
                    let x = match self.r.below(5) {
                        0 => 0,
                        1 => self.r.below(6) as u32,
                        2 => [u32::MAX, 0x7FFF_FFFF, 0x8000_0000, 0x0100_0000, 0x4000_0000, 0x00FF_FFFF][self.r.below(6) as usize],
                        _ => self.r.edgy() as u32,
                    };
                    w.extend(x.to_be_bytes());
                }
                w.truncate(w.len().saturating_sub(if self.r.chance(3) { self.r.below(4) as usize } else { 0 }));
                w
            };
            for _ in 0..self.r.below(3) {
                damage(&mut self.r, &mut w);
            }
            let (r, used) = peak(|| guard(|| serde_xdr::from_bytes::<T>(&w).is_ok()));
            if let Err(m) = r {
                println!("{}", json!({"bad": "panic", "type": name, "w": w, "got": m}));
            }
            // serde's own containers reserve up to 1 MiB on the strength of a length, once per level
            let allowed = (6 << 20) + 256 * w.len();
            if used > allowed {
                println!("{}", json!({"bad": "mem", "type": name, "w": w, "got": {"held": used, "allowed": allowed}}));
            }
            self.worst = self.worst.max(used as f64);
        }
    }
}

fn fuzz(seed: u64, rounds: u64, progress: &str) {
    let p = Progress::new(Some(progress), Duration::from_secs(20));
    let mut f = Fuzz { r: Rng(seed), p: &p, n: 0, rounds, worst: 0.0 };
    for_all(&mut f);
    p.done();
    println!("{}", json!({"done": true, "cases": f.n, "worst": f.worst}));
}

// ---- every word --------------------------------------------------------------------------
fn words(file: &str, shard: u64, shards: u64, progress: &str, seed: u64, all: u64) {
    let p = Progress::new(Some(progress), Duration::from_secs(60));
    let mut out = Out::default();
    let mut runs = 0;
    for (i, line) in std::fs::read_to_string(file).unwrap().lines().enumerate() {
        let j: J = serde_json::from_str(line).unwrap();
        let t = Rc::new(Ty::parse(&j["t"]));
        let sweep = vh::words::Sweep { is: vh::words::intervals(&j["is"]), shard, shards, seed, at: &|| p.at(i as u64) };
        for m in 0..2 {
            set_mode(m);
            runs += sweep.some(&mut out, i as u64, &|b| decode(&t, b));
        }
        if let Some(f) = vh::words::native(&t) {
            runs += sweep.either(&mut out, i as u64, &f, all == 1 && j["all"] == true);
        }
    }
    p.done();
    println!("{}", json!({"done": true, "runs": runs, "bad": out.bad}));
}
