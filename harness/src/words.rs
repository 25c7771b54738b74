//! Every word, read as a type that is one word.  What must become of a word is given by intervals.
use crate::dynamic::{Ty, Val, signed_word};
use crate::judge::Out;
use crate::manyvar::*;
use crate::rng::Rng;
use crate::run::guard;
use serde_json::{Value as J, json};
use serde_xdr::error::Error;
use std::cell::Cell;

/// What was read from a word.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Got {
    N(i64),
    L(u32),
    C(u32),
    B(bool),
    I(u32),
    O(bool),
    Empty,
    Other,
}

impl Got {
    pub fn of(v: &Val) -> Got {
        match v {
            Val::N(n) => Got::N(*n),
            Val::L(l) if l.len() == 2 => Got::L(u32::from(l[0]) << 16 | u32::from(l[1])),
            Val::C(c) => Got::C(*c),
            Val::B(b) => Got::B(*b),
            Val::I(i, xs) if xs.is_empty() => Got::I(*i),
            Val::O(o) if o.as_ref().is_none_or(|x| **x == Val::U) => Got::O(o.is_some()),
            Val::S(s) if s.is_empty() => Got::Empty,
            Val::Xs(xs) if xs.is_empty() => Got::Empty,
            Val::Kv(kv) if kv.is_empty() => Got::Empty,
            _ => Got::Other,
        }
    }
}

#[derive(Clone, Copy)]
enum Outcome {
    No,
    Const(Got),
    N,
    L,
    C,
    I,
}

impl Outcome {
    fn value(self, w: u32) -> Option<Got> {
        match self {
            Outcome::No => None,
            Outcome::Const(g) => Some(g),
            Outcome::N => Some(Got::N(i64::from(w as i32))),
            Outcome::L => Some(Got::L(w)),
            Outcome::C => Some(Got::C(w)),
            Outcome::I => Some(Got::I(w)),
        }
    }
}

pub struct Interval {
    lo: i64,
    hi: i64,
    o: Outcome,
}

pub fn intervals(j: &J) -> Vec<Interval> {
    let one = |i: &J| Interval {
        lo: i["lo"].as_i64().unwrap(),
        hi: i["hi"].as_i64().unwrap(),
        o: match i["o"]["f"].as_str().unwrap() {
            "no" => Outcome::No,
            "const" => Outcome::Const(Got::of(&Val::parse(&i["o"]["v"]))),
            "n" => Outcome::N,
            "l" => Outcome::L,
            "c" => Outcome::C,
            "i" => Outcome::I,
            f => panic!("form {f}"),
        },
    };
    j.as_array().unwrap().iter().map(one).collect()
}

pub struct Sweep<'a> {
    pub is: Vec<Interval>,
    pub shard: u64,
    pub shards: u64,
    pub seed: u64,
    pub at: &'a dyn Fn(),
}

pub type Reader<T> = dyn Fn(&[u8]) -> Result<T, Error>;

impl Sweep<'_> {
    fn expected(&self, w: u32) -> Option<Got> {
        let n = i64::from(w as i32);
        let i = self.is.partition_point(|i| i.hi < n);
        assert!(self.is[i].lo <= n);
        self.is[i].o.value(w)
    }

    /// the words (hi, lo) for every lo in los
    fn run(&self, out: &mut Out, line: u64, hi: u32, los: impl Iterator<Item = u32>, f: &dyn Fn(&[u8]) -> Option<Got>) -> u64 {
        (self.at)();
        let last = Cell::new(0);
        let mut n = 0;
        let mut bad = None;
        let r = guard(|| {
            for lo in los {
                let w = hi << 16 | lo;
                last.set(w);
                n += 1;
                let got = f(&w.to_be_bytes());
                let want = self.expected(w);
                if got != want {
                    bad = Some((w, got, want));
                    break;
                }
            }
        });
        if r.is_err() {
            out.say(line, "panic", 0, json!({"word": last.get()}));
        } else if let Some((w, got, want)) = bad {
            let kind = if want.is_none() {
                "dec-accepted"
            } else if got.is_none() {
                "dec-refused"
            } else {
                "dec-value"
            };
            out.say(line, kind, 0, json!({"word": w, "read": format!("{got:?}"), "must be": format!("{want:?}")}));
        }
        n
    }

    /// many words: every upper half with some lower halves and the other way round
    pub fn some(&self, out: &mut Out, line: u64, f: &dyn Fn(&[u8]) -> Result<Val, Error>) -> u64 {
        self.halves(out, line, &|b| f(b).ok().map(|v| Got::of(&v)))
    }

    fn halves(&self, out: &mut Out, line: u64, f: &dyn Fn(&[u8]) -> Option<Got>) -> u64 {
        let mut edges: Vec<u32> = vec![0, 1, 2, 3, 4, 5, 7, 127, 128, 255, 256, 257, 0x10FF, 0x1100, 0x7FFF, 0x8000, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFE, 0xFFFF];
        for i in &self.is {
            for n in [i.lo - 1, i.lo, i.hi, i.hi + 1] {
                edges.push((n >> 16) as u32 & 0xFFFF);
                edges.push(n as u32 & 0xFFFF);
            }
        }
        let mut r = Rng(self.seed);
        edges.extend((0..8).map(|_| r.below(65536) as u32));
        edges.sort_unstable();
        edges.dedup();
        let mut n = 0;
        for hi in (0..65536).filter(|h| h % self.shards == self.shard) {
            n += self.run(out, line, hi as u32, edges.iter().copied(), f);
        }
        for (_, hi) in edges.iter().enumerate().filter(|(i, _)| *i as u64 % self.shards == self.shard) {
            n += self.run(out, line, *hi, 0..65536, f);
        }
        n
    }

    /// every word
    pub fn all(&self, out: &mut Out, line: u64, f: &dyn Fn(&[u8]) -> Option<Got>) -> u64 {
        let mut n = 0;
        for hi in (0..65536).filter(|h| h % self.shards == self.shard) {
            n += self.run(out, line, hi as u32, 0..65536, f);
            if out.enough() || out.bad > 100 {
                break;
            }
        }
        n
    }

    pub fn either(&self, out: &mut Out, line: u64, f: &dyn Fn(&[u8]) -> Option<Got>, all: bool) -> u64 {
        if all { self.all(out, line, f) } else { self.halves(out, line, f) }
    }
}

/// the ordinary Rust type
pub fn native(t: &Ty) -> Option<Box<dyn Fn(&[u8]) -> Option<Got>>> {
    macro_rules! read {
        ($t:ty, $x:ident => $g:expr) => {
            Box::new(|b: &[u8]| match serde_xdr::from_bytes::<$t>(b) {
                Ok($x) => Some($g),
                Err(_) => None,
            })
        };
    }
    Some(match t {
        Ty::I8 => read!(i8, x => Got::N(i64::from(x))),
        Ty::U8 => read!(u8, x => Got::N(i64::from(x))),
        Ty::I16 => read!(i16, x => Got::N(i64::from(x))),
        Ty::U16 => read!(u16, x => Got::N(i64::from(x))),
        Ty::I32 => read!(i32, x => Got::N(i64::from(x))),
        Ty::U32 => read!(u32, x => Got::L(x)),
        Ty::F32 => read!(f32, x => Got::L(x.to_bits())),
        Ty::Char => read!(char, x => Got::C(u32::from(x))),
        Ty::Bool => read!(bool, x => Got::B(x)),
        Ty::Opt(e) if **e == Ty::Unit => read!(Option<()>, x => Got::O(x.is_some())),
        Ty::Str => read!(String, x => if x.is_empty() { Got::Empty } else { Got::Other }),
        Ty::Seq(e) if **e == Ty::U32 => read!(Vec<u32>, x => if x.is_empty() { Got::Empty } else { Got::Other }),
        Ty::OVar => read!(serde_xdr::opaque::VariableArray, x => if x.data.is_empty() { Got::Empty } else { Got::Other }),
        Ty::Enum(vs) => match vs.len() {
            1 => read!(E1, x => Got::I(x as u32)),
            2 => read!(E2, x => Got::I(x as u32)),
            3 => read!(E3, x => Got::I(x as u32)),
            5 => read!(E5, x => Got::I(x as u32)),
            256 => read!(E256, x => Got::I(x as u32)),
            300 => read!(E300, x => Got::I(x as u32)),
            _ => return None,
        },
        Ty::S32(acc) => {
            let acc = acc.clone();
            Box::new(move |b: &[u8]| signed_word(&acc, b).map(|n| Got::N(i64::from(n))))
        }
        _ => return None,
    })
}
