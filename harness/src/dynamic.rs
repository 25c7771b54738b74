//! The specification's types and values, driven through serde's data model.
//! Every type is (de)serialized with the calls that serde's own impls and
//! derives make; `mode` selects among equivalent ones.
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{
    self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct,
    SerializeTupleVariant, Serializer,
};
use serde::{Deserialize, Serialize};
use serde_json::{Value as J, json};
use serde_xdr::opaque;
use serde_xdr::primitive::signed32;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    I64,
    U64,
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Unit,
    UStruct,
    Opt(Box<Ty>),
    New(Box<Ty>),
    Seq(Box<Ty>),
    Arr(Box<Ty>, usize),
    Map(Box<Ty>, Box<Ty>),
    Tup(Vec<Ty>),
    TStruct(Vec<Ty>),
    Struct(Vec<Ty>),
    Enum(Vec<(Vk, Vec<Ty>)>),
    OFix(usize),
    OVar,
    S32(Vec<i32>),
    USeq,
    UMap,
    CSeq(u64),
    CMap(u64),
    CBytes,
    CStr,
    VBig(Vk, u32),
    I128,
    U128,
    Bomb,
    Hole,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Vk {
    Unit,
    New,
    Tuple,
    Struct,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    B(bool),
    N(i64),
    L(Vec<u16>),
    C(u32),
    S(Vec<u8>),
    U,
    O(Option<Box<Val>>),
    Xs(Vec<Val>),
    Kv(Vec<(Val, Val)>),
    I(u32, Vec<Val>),
    Hole,
}

// ---- JSON ---------------------------------------------------------------------
fn vk(s: &str) -> Vk {
    match s {
        "unit" => Vk::Unit,
        "newtype" => Vk::New,
        "tuple" => Vk::Tuple,
        "struct" => Vk::Struct,
        _ => panic!("variant kind {s}"),
    }
}

fn limbs(j: &J) -> Vec<u16> {
    j.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect()
}

fn number(j: &J) -> u64 {
    limbs(j).iter().fold(0, |a, l| (a << 16) | u64::from(*l))
}

pub fn bytes(j: &J) -> Vec<u8> {
    j.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

impl Ty {
    pub fn parse(j: &J) -> Ty {
        let e = || Box::new(Ty::parse(&j["e"]));
        let list = |k: &str| j[k].as_array().unwrap().iter().map(Ty::parse).collect::<Vec<_>>();
        match j["k"].as_str().unwrap() {
            "bool" => Ty::Bool,
            "i8" => Ty::I8,
            "u8" => Ty::U8,
            "i16" => Ty::I16,
            "u16" => Ty::U16,
            "i32" => Ty::I32,
            "u32" => Ty::U32,
            "i64" => Ty::I64,
            "u64" => Ty::U64,
            "f32" => Ty::F32,
            "f64" => Ty::F64,
            "char" => Ty::Char,
            "str" => Ty::Str,
            "bytes" => Ty::Bytes,
            "unit" => Ty::Unit,
            "ustruct" => Ty::UStruct,
            "opt" => Ty::Opt(e()),
            "newtype" => Ty::New(e()),
            "seq" => Ty::Seq(e()),
            "arr" => Ty::Arr(e(), j["n"].as_u64().unwrap() as usize),
            "map" => Ty::Map(Box::new(Ty::parse(&j["a"])), Box::new(Ty::parse(&j["d"]))),
            "tup" => Ty::Tup(list("ts")),
            "tstruct" => Ty::TStruct(list("ts")),
            "struct" => Ty::Struct(list("ts")),
            "enum" => Ty::Enum(
                j["vs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|v| {
                        (
                            vk(v["vk"].as_str().unwrap()),
                            v["ts"].as_array().unwrap().iter().map(Ty::parse).collect(),
                        )
                    })
                    .collect(),
            ),
            "ofix" => Ty::OFix(j["n"].as_u64().unwrap() as usize),
            "ovar" => Ty::OVar,
            "s32" => Ty::S32(j["acc"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as i32).collect()),
            "useq" => Ty::USeq,
            "umap" => Ty::UMap,
            "cseq" => Ty::CSeq(number(&j["l"])),
            "cmap" => Ty::CMap(number(&j["l"])),
            "cbytes" => Ty::CBytes,
            "cstr" => Ty::CStr,
            "vbig" => Ty::VBig(vk(j["vk"].as_str().unwrap()), number(&j["l"]) as u32),
            "i128" => Ty::I128,
            "u128" => Ty::U128,
            "bomb" => Ty::Bomb,
            "hole" => Ty::Hole,
            k => panic!("type {k}"),
        }
    }

    pub fn json(&self) -> J {
        let list = |ts: &[Ty]| ts.iter().map(Ty::json).collect::<Vec<_>>();
        match self {
            Ty::Bool => json!({"k": "bool"}),
            Ty::I8 => json!({"k": "i8"}),
            Ty::U8 => json!({"k": "u8"}),
            Ty::I16 => json!({"k": "i16"}),
            Ty::U16 => json!({"k": "u16"}),
            Ty::I32 => json!({"k": "i32"}),
            Ty::U32 => json!({"k": "u32"}),
            Ty::I64 => json!({"k": "i64"}),
            Ty::U64 => json!({"k": "u64"}),
            Ty::F32 => json!({"k": "f32"}),
            Ty::F64 => json!({"k": "f64"}),
            Ty::Char => json!({"k": "char"}),
            Ty::Str => json!({"k": "str"}),
            Ty::Bytes => json!({"k": "bytes"}),
            Ty::Unit => json!({"k": "unit"}),
            Ty::UStruct => json!({"k": "ustruct"}),
            Ty::Opt(e) => json!({"k": "opt", "e": e.json()}),
            Ty::New(e) => json!({"k": "newtype", "e": e.json()}),
            Ty::Seq(e) => json!({"k": "seq", "e": e.json()}),
            Ty::Arr(e, n) => json!({"k": "arr", "e": e.json(), "n": n}),
            Ty::Map(a, d) => json!({"k": "map", "a": a.json(), "d": d.json()}),
            Ty::Tup(ts) => json!({"k": "tup", "ts": list(ts)}),
            Ty::TStruct(ts) => json!({"k": "tstruct", "ts": list(ts)}),
            Ty::Struct(ts) => json!({"k": "struct", "ts": list(ts)}),
            Ty::Enum(vs) => json!({"k": "enum", "vs": vs.iter().map(|(k, ts)| {
                let k = match k { Vk::Unit => "unit", Vk::New => "newtype", Vk::Tuple => "tuple", Vk::Struct => "struct" };
                json!({"vk": k, "ts": list(ts)})
            }).collect::<Vec<_>>()}),
            Ty::OFix(n) => json!({"k": "ofix", "n": n}),
            Ty::OVar => json!({"k": "ovar"}),
            Ty::S32(acc) => json!({"k": "s32", "acc": acc}),
            _ => panic!("type is not recorded"),
        }
    }

    /// the type with what stands for a part
    pub fn fill(&self, x: &Ty) -> Ty {
        let part = |e: &Ty| Box::new(e.fill(x));
        let list = |ts: &[Ty]| ts.iter().map(|t| t.fill(x)).collect();
        match self {
            Ty::Hole => x.clone(),
            Ty::Opt(e) => Ty::Opt(part(e)),
            Ty::New(e) => Ty::New(part(e)),
            Ty::Seq(e) => Ty::Seq(part(e)),
            Ty::Arr(e, n) => Ty::Arr(part(e), *n),
            Ty::Map(a, d) => Ty::Map(part(a), part(d)),
            Ty::Tup(ts) => Ty::Tup(list(ts)),
            Ty::TStruct(ts) => Ty::TStruct(list(ts)),
            Ty::Struct(ts) => Ty::Struct(list(ts)),
            Ty::Enum(vs) => Ty::Enum(vs.iter().map(|(k, ts)| (*k, list(ts))).collect()),
            t => t.clone(),
        }
    }
}

impl Val {
    pub fn parse(j: &J) -> Val {
        let o = j.as_object().unwrap();
        let list = |k: &str| o[k].as_array().unwrap().iter().map(Val::parse).collect::<Vec<_>>();
        if let Some(i) = o.get("i") {
            Val::I(i.as_u64().unwrap() as u32, list("xs"))
        } else if let Some(b) = o.get("b") {
            Val::B(b.as_bool().unwrap())
        } else if let Some(n) = o.get("n") {
            Val::N(n.as_i64().unwrap())
        } else if let Some(l) = o.get("l") {
            Val::L(limbs(l))
        } else if let Some(c) = o.get("c") {
            Val::C(c.as_u64().unwrap() as u32)
        } else if let Some(s) = o.get("s") {
            Val::S(bytes(s))
        } else if o.contains_key("hole") {
            Val::Hole
        } else if o.contains_key("u") {
            Val::U
        } else if o.contains_key("o") {
            Val::O(list("o").into_iter().next().map(Box::new))
        } else if o.contains_key("xs") {
            Val::Xs(list("xs"))
        } else if let Some(kv) = o.get("kv") {
            Val::Kv(
                kv.as_array()
                    .unwrap()
                    .iter()
                    .map(|p| (Val::parse(&p[0]), Val::parse(&p[1])))
                    .collect(),
            )
        } else {
            panic!("value {j}")
        }
    }

    pub fn json(&self) -> J {
        let list = |xs: &[Val]| xs.iter().map(Val::json).collect::<Vec<_>>();
        match self {
            Val::B(b) => json!({"b": b}),
            Val::N(n) => json!({"n": n}),
            Val::L(l) => json!({"l": l}),
            Val::C(c) => json!({"c": c}),
            Val::S(s) => json!({"s": s}),
            Val::U => json!({"u": 0}),
            Val::O(o) => json!({"o": o.iter().map(|v| v.json()).collect::<Vec<_>>()}),
            Val::Xs(xs) => json!({"xs": list(xs)}),
            Val::Kv(kv) => json!({"kv": kv.iter().map(|(a, b)| json!([a.json(), b.json()])).collect::<Vec<_>>()}),
            Val::I(i, xs) => json!({"i": i, "xs": list(xs)}),
            Val::Hole => panic!("hole"),
        }
    }

    /// the value with what stands for a part
    pub fn fill(&self, x: &Val) -> Val {
        let list = |xs: &[Val]| xs.iter().map(|v| v.fill(x)).collect();
        match self {
            Val::Hole => x.clone(),
            Val::O(o) => Val::O(o.as_ref().map(|v| Box::new(v.fill(x)))),
            Val::Xs(xs) => Val::Xs(list(xs)),
            Val::Kv(kv) => Val::Kv(kv.iter().map(|(a, b)| (a.fill(x), b.fill(x))).collect()),
            Val::I(i, xs) => Val::I(*i, list(xs)),
            v => v.clone(),
        }
    }

    fn u(&self) -> u64 {
        match self {
            Val::L(l) => l.iter().fold(0, |a, x| (a << 16) | u64::from(*x)),
            v => panic!("limbs {v:?}"),
        }
    }
    fn n(&self) -> i64 {
        match self {
            Val::N(n) => *n,
            v => panic!("number {v:?}"),
        }
    }
    fn s(&self) -> &[u8] {
        match self {
            Val::S(s) => s,
            v => panic!("bytes {v:?}"),
        }
    }
    fn xs(&self) -> &[Val] {
        match self {
            Val::Xs(xs) | Val::I(_, xs) => xs,
            v => panic!("sequence {v:?}"),
        }
    }
}

pub fn l2(x: u32) -> Val {
    Val::L(vec![(x >> 16) as u16, x as u16])
}
pub fn l4(x: u64) -> Val {
    Val::L(vec![(x >> 48) as u16, (x >> 32) as u16, (x >> 16) as u16, x as u16])
}

// ---- names --------------------------------------------------------------------
const NAMES: usize = 400;
pub fn names(n: usize) -> &'static [&'static str] {
    thread_local!(static T: &'static [&'static str] = {
        let v: Vec<&'static str> = (0..NAMES).map(|i| &*format!("n{i}").leak()).collect();
        v.leak()
    });
    T.with(|t| &t[..n])
}

thread_local!(static MODE: Cell<u32> = const { Cell::new(0) });
pub fn set_mode(m: u32) {
    MODE.set(m);
}
fn mode() -> u32 {
    MODE.get()
}

// ---- fixed opaque data ----------------------------------------------------------
macro_rules! fixed_table {
    ($n:expr, $f:ident, $other:expr; $($k:literal)*) => { match $n { $($k => $f!($k),)* _ => $other } };
}
macro_rules! fixed_sizes {
    ($n:expr, $f:ident, $other:expr) => {
        fixed_table!($n, $f, $other; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29
            30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64
            65 66 67 68 69 70 71 72 95 96 97 98 99 100 127 128 129 130 131 255 256 257 258 511 512 513 1000 1023 1024 1025 4096 65535
            65536 65537 65538)
    };
}

fn fixed_ser<S: Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> {
    macro_rules! f {
        ($k:literal) => {{
            let a: [u8; $k] = b.try_into().expect("length");
            if mode() == 1 { opaque::FixedArray::<$k> { data: a }.serialize(s) } else { opaque::fixed::serialize(&a, s) }
        }};
    }
    fixed_sizes!(b.len(), f, panic!("no opaque of {}", b.len()))
}

fn fixed_de<'de, D: Deserializer<'de>>(n: usize, d: D) -> Result<Val, D::Error> {
    macro_rules! f {
        ($k:literal) => {
            if mode() == 1 {
                opaque::FixedArray::<$k>::deserialize(d).map(|a| Val::S(a.data.to_vec()))
            } else {
                opaque::fixed::deserialize::<$k, D>(d).map(|a| Val::S(a.to_vec()))
            }
        };
    }
    fixed_sizes!(n, f, panic!("no opaque of {n}"))
}

// ---- signed words ---------------------------------------------------------------
thread_local!(static ACC: RefCell<Rc<Vec<i32>>> = RefCell::new(Rc::new(vec![])));
struct S32(i32);
impl AsRef<i32> for S32 {
    fn as_ref(&self) -> &i32 {
        &self.0
    }
}
impl TryFrom<i32> for S32 {
    type Error = ();
    fn try_from(n: i32) -> Result<S32, ()> {
        ACC.with_borrow(|a| if a.contains(&n) { Ok(S32(n)) } else { Err(()) })
    }
}

/// a word read through the adapter, of a type which accepts the numbers given
pub fn signed_word(acc: &[i32], b: &[u8]) -> Option<i32> {
    struct Whole(S32);
    impl<'de> Deserialize<'de> for Whole {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Whole, D::Error> {
            signed32::deserialize::<S32, D>(d).map(Whole)
        }
    }
    ACC.with_borrow_mut(|a| {
        if a.as_slice() != acc {
            *a = Rc::new(acc.to_vec());
        }
    });
    serde_xdr::from_bytes::<Whole>(b).ok().map(|x| x.0.0)
}

// ---- 2^32 bytes that cost nothing --------------------------------------------------
pub fn huge(n: usize) -> &'static [u8] {
    unsafe extern "C" {
        fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    }
    thread_local!(static P: Cell<(usize, usize)> = const { Cell::new((0, 0)) });
    if P.get().1 < n {
        // read only, private, anonymous, no reserve
        let p = unsafe { mmap(std::ptr::null_mut(), n, 1, 0x2 | 0x20 | 0x4000, -1, 0) };
        assert!(p as isize != -1, "mmap");
        P.set((p as usize, n));
    }
    unsafe { std::slice::from_raw_parts(P.get().0 as *const u8, n) }
}

// ---- serializing ------------------------------------------------------------------
pub struct Item<'a>(pub &'a Ty, pub &'a Val);

impl Serialize for Item<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let v = self.1;
        match self.0 {
            Ty::Bool => s.serialize_bool(matches!(v, Val::B(true))),
            Ty::I8 => s.serialize_i8(v.n() as i8),
            Ty::U8 => s.serialize_u8(v.n() as u8),
            Ty::I16 => s.serialize_i16(v.n() as i16),
            Ty::U16 => s.serialize_u16(v.n() as u16),
            Ty::I32 => s.serialize_i32(v.n() as i32),
            Ty::U32 => s.serialize_u32(v.u() as u32),
            Ty::I64 => s.serialize_i64(v.u() as i64),
            Ty::U64 => s.serialize_u64(v.u()),
            Ty::F32 => s.serialize_f32(f32::from_bits(v.u() as u32)),
            Ty::F64 => s.serialize_f64(f64::from_bits(v.u())),
            Ty::Char => match v {
                Val::C(c) => s.serialize_char(char::from_u32(*c).unwrap()),
                _ => panic!("char"),
            },
            Ty::Str => s.serialize_str(std::str::from_utf8(v.s()).unwrap()),
            Ty::Bytes => s.serialize_bytes(v.s()),
            Ty::Unit => s.serialize_unit(),
            Ty::UStruct => s.serialize_unit_struct("U"),
            Ty::Opt(e) => match v {
                Val::O(None) => s.serialize_none(),
                Val::O(Some(x)) => s.serialize_some(&Item(e, x)),
                _ => panic!("optional"),
            },
            Ty::New(e) => s.serialize_newtype_struct("N", &Item(e, v)),
            Ty::Seq(e) => {
                let mut q = s.serialize_seq(Some(v.xs().len()))?;
                for x in v.xs() {
                    q.serialize_element(&Item(e, x))?;
                }
                q.end()
            }
            Ty::Arr(e, n) => {
                assert_eq!(*n, v.xs().len());
                let mut q = s.serialize_tuple(*n)?;
                for x in v.xs() {
                    q.serialize_element(&Item(e, x))?;
                }
                q.end()
            }
            Ty::Map(a, d) => match v {
                Val::Kv(kv) => {
                    let mut q = s.serialize_map(Some(kv.len()))?;
                    for (x, y) in kv {
                        if mode() == 1 {
                            q.serialize_key(&Item(a, x))?;
                            q.serialize_value(&Item(d, y))?;
                        } else {
                            q.serialize_entry(&Item(a, x), &Item(d, y))?;
                        }
                    }
                    q.end()
                }
                _ => panic!("map"),
            },
            Ty::Tup(ts) => {
                let mut q = s.serialize_tuple(ts.len())?;
                for (t, x) in ts.iter().zip(v.xs()) {
                    q.serialize_element(&Item(t, x))?;
                }
                q.end()
            }
            Ty::TStruct(ts) => {
                let mut q = s.serialize_tuple_struct("T", ts.len())?;
                for (t, x) in ts.iter().zip(v.xs()) {
                    q.serialize_field(&Item(t, x))?;
                }
                q.end()
            }
            Ty::Struct(ts) => {
                let mut q = s.serialize_struct("S", ts.len())?;
                for (i, (t, x)) in ts.iter().zip(v.xs()).enumerate() {
                    q.serialize_field(names(ts.len())[i], &Item(t, x))?;
                }
                q.end()
            }
            Ty::Enum(vs) => {
                let Val::I(i, xs) = v else { panic!("variant") };
                let (k, ts) = &vs[*i as usize];
                let name = names(vs.len())[*i as usize];
                match k {
                    Vk::Unit => s.serialize_unit_variant("E", *i, name),
                    Vk::New => s.serialize_newtype_variant("E", *i, name, &Item(&ts[0], &xs[0])),
                    Vk::Tuple => {
                        let mut q = s.serialize_tuple_variant("E", *i, name, ts.len())?;
                        for (t, x) in ts.iter().zip(xs) {
                            q.serialize_field(&Item(t, x))?;
                        }
                        q.end()
                    }
                    Vk::Struct => {
                        let mut q = s.serialize_struct_variant("E", *i, name, ts.len())?;
                        for (j, (t, x)) in ts.iter().zip(xs).enumerate() {
                            q.serialize_field(names(ts.len())[j], &Item(t, x))?;
                        }
                        q.end()
                    }
                }
            }
            Ty::OFix(n) => {
                assert_eq!(*n, v.s().len());
                fixed_ser(v.s(), s)
            }
            Ty::OVar => {
                if mode() == 1 {
                    opaque::VariableArray { data: v.s().to_vec() }.serialize(s)
                } else {
                    opaque::variable::serialize(&v.s().to_vec(), s)
                }
            }
            Ty::S32(_) => signed32::serialize(&S32(v.n() as i32), s),
            Ty::USeq => s.serialize_seq(None)?.end(),
            Ty::UMap => s.serialize_map(None)?.end(),
            Ty::CSeq(n) => s.serialize_seq(Some(*n as usize))?.end(),
            Ty::CMap(n) => s.serialize_map(Some(*n as usize))?.end(),
            Ty::CBytes => s.serialize_bytes(huge((1 << 32) + 3)),
            Ty::CStr => s.serialize_str(unsafe { std::str::from_utf8_unchecked(huge(1 << 32)) }),
            Ty::VBig(k, i) => match k {
                Vk::Unit => s.serialize_unit_variant("E", *i, "v"),
                Vk::New => s.serialize_newtype_variant("E", *i, "v", &()),
                Vk::Tuple => s.serialize_tuple_variant("E", *i, "v", 0)?.end(),
                Vk::Struct => s.serialize_struct_variant("E", *i, "v", 0)?.end(),
            },
            Ty::I128 => s.serialize_i128(1),
            Ty::U128 => s.serialize_u128(1),
            Ty::Bomb => Err(ser::Error::custom("boom")),
            Ty::Hole => panic!("hole"),
        }
    }
}

// ---- deserializing ------------------------------------------------------------------
struct Seed<'a>(&'a Ty);

impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        let t = self.0;
        let v = V(t);
        match t {
            Ty::Bool => d.deserialize_bool(v),
            Ty::I8 => d.deserialize_i8(v),
            Ty::U8 => d.deserialize_u8(v),
            Ty::I16 => d.deserialize_i16(v),
            Ty::U16 => d.deserialize_u16(v),
            Ty::I32 => d.deserialize_i32(v),
            Ty::U32 => d.deserialize_u32(v),
            Ty::I64 => d.deserialize_i64(v),
            Ty::U64 => d.deserialize_u64(v),
            Ty::F32 => d.deserialize_f32(v),
            Ty::F64 => d.deserialize_f64(v),
            Ty::Char => d.deserialize_char(v),
            Ty::Str => {
                if mode() == 1 {
                    d.deserialize_str(v)
                } else {
                    d.deserialize_string(v)
                }
            }
            Ty::Bytes => {
                if mode() == 1 {
                    d.deserialize_bytes(v)
                } else {
                    d.deserialize_byte_buf(v)
                }
            }
            Ty::Unit => d.deserialize_unit(v),
            Ty::UStruct => d.deserialize_unit_struct("U", v),
            Ty::Opt(_) => d.deserialize_option(v),
            Ty::New(_) => d.deserialize_newtype_struct("N", v),
            Ty::Seq(_) => d.deserialize_seq(v),
            Ty::Arr(_, n) => d.deserialize_tuple(*n, v),
            Ty::Map(..) => d.deserialize_map(v),
            Ty::Tup(ts) => d.deserialize_tuple(ts.len(), v),
            Ty::TStruct(ts) => d.deserialize_tuple_struct("T", ts.len(), v),
            Ty::Struct(ts) => d.deserialize_struct("S", names(ts.len()), v),
            Ty::Enum(vs) => d.deserialize_enum("E", names(vs.len()), v),
            Ty::OFix(n) => fixed_de(*n, d),
            Ty::OVar => {
                if mode() == 1 {
                    opaque::VariableArray::deserialize(d).map(|a| Val::S(a.data))
                } else {
                    opaque::variable::deserialize(d).map(Val::S)
                }
            }
            Ty::S32(acc) => {
                ACC.with_borrow_mut(|a| *a = Rc::new(acc.clone()));
                signed32::deserialize::<S32, D>(d).map(|x| Val::N(x.0.into()))
            }
            Ty::Bomb => Err(de::Error::custom("boom")),
            _ => panic!("{t:?} is not decoded"),
        }
    }
}

struct V<'a>(&'a Ty);

impl V<'_> {
    fn fields<'de, A: SeqAccess<'de>>(ts: &[Ty], mut a: A) -> Result<Vec<Val>, A::Error> {
        let mut xs = vec![];
        for (i, t) in ts.iter().enumerate() {
            match a.next_element_seed(Seed(t))? {
                Some(x) => xs.push(x),
                None => return Err(de::Error::invalid_length(i, &"all the fields")),
            }
        }
        Ok(xs)
    }
}

impl<'de> Visitor<'de> for V<'_> {
    type Value = Val;

    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_bool<E: de::Error>(self, b: bool) -> Result<Val, E> {
        match self.0 {
            Ty::Bool => Ok(Val::B(b)),
            _ => Err(E::custom("wrong visit: bool")),
        }
    }
    fn visit_i8<E: de::Error>(self, n: i8) -> Result<Val, E> {
        self.visit_i64(n.into())
    }
    fn visit_i64<E: de::Error>(self, n: i64) -> Result<Val, E> {
        let range = |lo: i64, hi: i64| {
            if n >= lo && n <= hi { Ok(Val::N(n)) } else { Err(E::invalid_value(de::Unexpected::Signed(n), &"in range")) }
        };
        match self.0 {
            Ty::I8 => range(i8::MIN.into(), i8::MAX.into()),
            Ty::U8 => range(0, u8::MAX.into()),
            Ty::I16 => range(i16::MIN.into(), i16::MAX.into()),
            Ty::U16 => range(0, u16::MAX.into()),
            Ty::I32 => range(i32::MIN.into(), i32::MAX.into()),
            Ty::I64 => Ok(l4(n as u64)),
            Ty::U32 if u32::try_from(n).is_ok() => Ok(l2(n as u32)),
            Ty::U64 if n >= 0 => Ok(l4(n as u64)),
            _ => Err(E::custom("wrong visit: integer")),
        }
    }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<Val, E> {
        match self.0 {
            Ty::U64 => Ok(l4(n)),
            _ => match i64::try_from(n) {
                Ok(n) => self.visit_i64(n),
                Err(_) => Err(E::invalid_value(de::Unexpected::Unsigned(n), &"in range")),
            },
        }
    }
    fn visit_f32<E: de::Error>(self, x: f32) -> Result<Val, E> {
        match self.0 {
            Ty::F32 => Ok(l2(x.to_bits())),
            Ty::F64 => Ok(l4(f64::from(x).to_bits())),
            _ => Err(E::custom("wrong visit: f32")),
        }
    }
    fn visit_f64<E: de::Error>(self, x: f64) -> Result<Val, E> {
        match self.0 {
            Ty::F64 => Ok(l4(x.to_bits())),
            Ty::F32 => Ok(l2((x as f32).to_bits())),
            _ => Err(E::custom("wrong visit: f64")),
        }
    }
    fn visit_char<E: de::Error>(self, c: char) -> Result<Val, E> {
        match self.0 {
            Ty::Char => Ok(Val::C(c.into())),
            _ => Err(E::custom("wrong visit: char")),
        }
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Val, E> {
        match self.0 {
            Ty::Str => Ok(Val::S(s.as_bytes().to_vec())),
            Ty::Bytes => Ok(Val::S(s.as_bytes().to_vec())),
            Ty::Char => {
                let mut cs = s.chars();
                match (cs.next(), cs.next()) {
                    (Some(c), None) => Ok(Val::C(c.into())),
                    _ => Err(E::custom("wrong visit: str for char")),
                }
            }
            _ => Err(E::custom("wrong visit: str")),
        }
    }
    fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<Val, E> {
        match self.0 {
            Ty::Bytes => Ok(Val::S(s.to_vec())),
            Ty::Str => match std::str::from_utf8(s) {
                Ok(_) => Ok(Val::S(s.to_vec())),
                Err(_) => Err(E::invalid_value(de::Unexpected::Bytes(s), &"text")),
            },
            _ => Err(E::custom("wrong visit: bytes")),
        }
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        match self.0 {
            Ty::Unit | Ty::UStruct => Ok(Val::U),
            Ty::Opt(_) => Ok(Val::O(None)),
            _ => Err(E::custom("wrong visit: unit")),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        match self.0 {
            Ty::Opt(_) => Ok(Val::O(None)),
            _ => Err(E::custom("wrong visit: none")),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Ty::Opt(e) => Ok(Val::O(Some(Box::new(Seed(e).deserialize(d)?)))),
            _ => Err(de::Error::custom("wrong visit: some")),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Ty::New(e) => Seed(e).deserialize(d),
            _ => Err(de::Error::custom("wrong visit: newtype")),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Ty::Seq(e) => {
                let mut xs = vec![];
                while let Some(x) = a.next_element_seed(Seed(e))? {
                    xs.push(x);
                }
                Ok(Val::Xs(xs))
            }
            Ty::Bytes => {
                let mut xs = vec![];
                while let Some(x) = a.next_element::<u8>()? {
                    xs.push(x);
                }
                Ok(Val::S(xs))
            }
            Ty::Arr(e, n) => {
                let mut xs = vec![];
                for i in 0..*n {
                    match a.next_element_seed(Seed(e))? {
                        Some(x) => xs.push(x),
                        None => return Err(de::Error::invalid_length(i, &"the whole array")),
                    }
                }
                Ok(Val::Xs(xs))
            }
            Ty::New(e) => match a.next_element_seed(Seed(e))? {
                Some(x) => Ok(x),
                None => Err(de::Error::invalid_length(0, &"the content")),
            },
            Ty::Tup(ts) | Ty::TStruct(ts) | Ty::Struct(ts) => Self::fields(ts, a).map(Val::Xs),
            _ => Err(de::Error::custom("wrong visit: seq")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Ty::Map(k, d) => {
                let mut kv = vec![];
                if mode() == 1 {
                    while let Some(x) = a.next_key_seed(Seed(k))? {
                        kv.push((x, a.next_value_seed(Seed(d))?));
                    }
                } else {
                    while let Some(p) = a.next_entry_seed(Seed(k), Seed(d))? {
                        kv.push(p);
                    }
                }
                Ok(Val::Kv(kv))
            }
            _ => Err(de::Error::custom("wrong visit: map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let Ty::Enum(vs) = self.0 else {
            return Err(de::Error::custom("wrong visit: enum"));
        };
        let (i, c) = a.variant_seed(Which(vs.len()))?;
        let (k, ts) = &vs[i];
        let xs = match k {
            Vk::Unit => {
                c.unit_variant()?;
                vec![]
            }
            Vk::New => vec![c.newtype_variant_seed(Seed(&ts[0]))?],
            Vk::Tuple => c.tuple_variant(ts.len(), Fields(ts))?,
            Vk::Struct => c.struct_variant(names(ts.len()), Fields(ts))?,
        };
        Ok(Val::I(i as u32, xs))
    }
}

struct Fields<'a>(&'a [Ty]);
impl<'de> Visitor<'de> for Fields<'_> {
    type Value = Vec<Val>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "fields")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<Val>, A::Error> {
        V::fields(self.0, a)
    }
}

/// the variant identifier, as serde derives it
struct Which(usize);
impl<'de> DeserializeSeed<'de> for Which {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Which {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "variant identifier")
    }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<usize, E> {
        if n < self.0 as u64 {
            Ok(n as usize)
        } else {
            Err(E::invalid_value(de::Unexpected::Unsigned(n), &"variant index"))
        }
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<usize, E> {
        names(self.0)
            .iter()
            .position(|n| *n == s)
            .ok_or_else(|| E::unknown_variant(s, names(self.0)))
    }
}

// ---- whole operations -------------------------------------------------------------------
thread_local!(static TOP: RefCell<Rc<Ty>> = RefCell::new(Rc::new(Ty::Unit)));
struct Top(Val);
impl<'de> Deserialize<'de> for Top {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Top, D::Error> {
        let t = TOP.with_borrow(|t| t.clone());
        Seed(&t).deserialize(d).map(Top)
    }
}

pub fn decode(t: &Rc<Ty>, b: &[u8]) -> Result<Val, serde_xdr::error::Error> {
    TOP.with_borrow_mut(|x| *x = t.clone());
    serde_xdr::from_bytes::<Top>(b).map(|x| x.0)
}

pub fn encode(t: &Ty, v: &Val) -> Result<Vec<u8>, serde_xdr::error::Error> {
    serde_xdr::to_bytes(&Item(t, v))
}

/// the class of an error, and the count it carries
pub fn class(e: &serde_xdr::error::Error) -> (String, u64) {
    use serde_xdr::error::Error::*;
    match e {
        Custom(s) if s == "boom" => ("Boom".into(), 0),
        Custom(_) => ("Custom".into(), 0),
        Convert => ("Convert".into(), 0),
        Encoding(_) => ("Utf8".into(), 0),
        NotEnoughData(n) => ("NotEnough".into(), *n as u64),
        NotImplemented => ("NotImplemented".into(), 0),
        NotSupported => ("NotSupported".into(), 0),
        TrailingData(n) => ("Trailing".into(), *n as u64),
    }
}
