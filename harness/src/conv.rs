//! Rust values from and to the specification's values.
use crate::dynamic::{Val, l2, l4};
use serde::de::{Deserialize, Deserializer, MapAccess, Visitor};
use serde::ser::{Serialize, SerializeMap, Serializer};
use serde_xdr::opaque::{FixedArray, VariableArray};
use std::marker::PhantomData;

pub trait Conv: Sized {
    fn from_val(v: &Val) -> Self;
    fn to_val(&self) -> Val;
}

pub fn items(v: &Val) -> &[Val] {
    match v {
        Val::Xs(xs) | Val::I(_, xs) => xs,
        _ => panic!("sequence {v:?}"),
    }
}
pub fn variant(v: &Val) -> u32 {
    match v {
        Val::I(i, _) => *i,
        _ => panic!("variant {v:?}"),
    }
}
fn number(v: &Val) -> u64 {
    match v {
        Val::L(l) => l.iter().fold(0, |a, x| (a << 16) | u64::from(*x)),
        Val::N(n) => *n as u64,
        _ => panic!("number {v:?}"),
    }
}
fn text(v: &Val) -> Vec<u8> {
    match v {
        Val::S(s) => s.clone(),
        _ => panic!("bytes {v:?}"),
    }
}

macro_rules! small {
    ($($t:ty)*) => { $(impl Conv for $t {
        fn from_val(v: &Val) -> Self { number(v) as $t }
        fn to_val(&self) -> Val { Val::N(i64::from(*self)) }
    })* };
}
small!(i8 u8 i16 u16 i32);
macro_rules! wide {
    ($($t:ty, $x:ident => $from:expr, $v:ident => $to:expr;)*) => { $(impl Conv for $t {
        fn from_val(v: &Val) -> Self { let $x = number(v); $from }
        fn to_val(&self) -> Val { let $v = *self; $to }
    })* };
}
wide! {
    u32, x => x as u32, v => l2(v);
    i64, x => x as i64, v => l4(v as u64);
    u64, x => x, v => l4(v);
    f32, x => f32::from_bits(x as u32), v => l2(v.to_bits());
    f64, x => f64::from_bits(x), v => l4(v.to_bits());
}
impl Conv for bool {
    fn from_val(v: &Val) -> Self {
        *v == Val::B(true)
    }
    fn to_val(&self) -> Val {
        Val::B(*self)
    }
}
impl Conv for char {
    fn from_val(v: &Val) -> Self {
        match v {
            Val::C(c) => char::from_u32(*c).unwrap(),
            _ => panic!("char {v:?}"),
        }
    }
    fn to_val(&self) -> Val {
        Val::C(u32::from(*self))
    }
}
impl Conv for String {
    fn from_val(v: &Val) -> Self {
        String::from_utf8(text(v)).unwrap()
    }
    fn to_val(&self) -> Val {
        Val::S(self.as_bytes().to_vec())
    }
}
impl Conv for () {
    fn from_val(_: &Val) -> Self {}
    fn to_val(&self) -> Val {
        Val::U
    }
}
impl Conv for VariableArray {
    fn from_val(v: &Val) -> Self {
        VariableArray { data: text(v) }
    }
    fn to_val(&self) -> Val {
        Val::S(self.data.clone())
    }
}
impl<const N: usize> Conv for FixedArray<N> {
    fn from_val(v: &Val) -> Self {
        FixedArray { data: text(v).try_into().unwrap() }
    }
    fn to_val(&self) -> Val {
        Val::S(self.data.to_vec())
    }
}
impl<T: Conv> Conv for Option<T> {
    fn from_val(v: &Val) -> Self {
        match v {
            Val::O(o) => o.as_ref().map(|x| T::from_val(x)),
            _ => panic!("optional {v:?}"),
        }
    }
    fn to_val(&self) -> Val {
        Val::O(self.as_ref().map(|x| Box::new(x.to_val())))
    }
}
impl<T: Conv> Conv for Vec<T> {
    fn from_val(v: &Val) -> Self {
        items(v).iter().map(T::from_val).collect()
    }
    fn to_val(&self) -> Val {
        Val::Xs(self.iter().map(T::to_val).collect())
    }
}
impl<T: Conv, const N: usize> Conv for [T; N] {
    fn from_val(v: &Val) -> Self {
        std::array::from_fn(|i| T::from_val(&items(v)[i]))
    }
    fn to_val(&self) -> Val {
        Val::Xs(self.iter().map(T::to_val).collect())
    }
}
macro_rules! tuple {
    ($($t:ident $i:tt),*) => { impl<$($t: Conv),*> Conv for ($($t,)*) {
        fn from_val(v: &Val) -> Self { ($($t::from_val(&items(v)[$i]),)*) }
        fn to_val(&self) -> Val { Val::Xs(vec![$(self.$i.to_val()),*]) }
    } };
}
tuple!(A 0);
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);

/// a map that keeps order and repetition
#[derive(Clone, Debug, PartialEq)]
pub struct KvMap<K, V>(pub Vec<(K, V)>);
impl<K: Conv, V: Conv> Conv for KvMap<K, V> {
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Kv(kv) => KvMap(kv.iter().map(|(a, b)| (K::from_val(a), V::from_val(b))).collect()),
            _ => panic!("map {v:?}"),
        }
    }
    fn to_val(&self) -> Val {
        Val::Kv(self.0.iter().map(|(a, b)| (a.to_val(), b.to_val())).collect())
    }
}
impl<K: Serialize, V: Serialize> Serialize for KvMap<K, V> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(self.0.len()))?;
        for (k, v) in &self.0 {
            m.serialize_entry(k, v)?;
        }
        m.end()
    }
}
struct Kv<K, V>(PhantomData<(K, V)>);
impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Visitor<'de> for Kv<K, V> {
    type Value = KvMap<K, V>;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "a map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let mut v = vec![];
        while let Some(p) = a.next_entry()? {
            v.push(p);
        }
        Ok(KvMap(v))
    }
}
impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Deserialize<'de> for KvMap<K, V> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_map(Kv(PhantomData))
    }
}
