//! Ordinary Rust types with serde's own impls and derives, and how the
//! specification calls them.
use crate::dynamic::{Ty, Val, Vk, l2, l4};
use crate::rng::Rng;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_xdr::opaque::{self, VariableArray};
use serde_xdr::primitive::signed32;
use std::collections::{BTreeMap, HashMap, VecDeque};

pub trait Nat: Serialize + DeserializeOwned {
    fn ty() -> Ty;
    fn val(&self) -> Val;
    fn make(r: &mut Rng, depth: u32) -> Self;
}

fn size(r: &mut Rng, depth: u32) -> usize {
    match r.below(8) {
        0 => 0,
        1..=4 => r.below(4) as usize,
        5 | 6 => r.below(10) as usize,
        _ if depth < 2 => r.below(40) as usize,
        _ => 1,
    }
}

#[allow(unused)]
macro_rules! nat_small {
    ($($t:ty, $k:ident;)*) => { $(impl Nat for $t {
        fn ty() -> Ty { Ty::$k }
        fn val(&self) -> Val { Val::N(i64::from(*self)) }
        fn make(r: &mut Rng, _: u32) -> Self { r.edgy() as $t }
    })* };
}
nat_small! { i8, I8; u8, U8; i16, I16; u16, U16; i32, I32; }
#[allow(unused)]
macro_rules! nat_limbs {
    ($($t:ty, $k:ident, $f:ident, $v:ident => $bits:expr, $x:ident => $make:expr;)*) => { $(impl Nat for $t {
        fn ty() -> Ty { Ty::$k }
        fn val(&self) -> Val { let $v = *self; $f($bits) }
        fn make(r: &mut Rng, _: u32) -> Self { let $x = r.edgy(); $make }
    })* };
}
nat_limbs! {
    u32, U32, l2, v => v, x => x as u32;
    i64, I64, l4, v => v as u64, x => x as i64;
    u64, U64, l4, v => v, x => x;
    f32, F32, l2, v => v.to_bits(), x => f32::from_bits((x ^ (x >> 32)) as u32);
    f64, F64, l4, v => v.to_bits(), x => f64::from_bits(x);
}
impl Nat for bool {
    fn ty() -> Ty {
        Ty::Bool
    }
    fn val(&self) -> Val {
        Val::B(*self)
    }
    fn make(r: &mut Rng, _: u32) -> Self {
        r.chance(2)
    }
}
impl Nat for char {
    fn ty() -> Ty {
        Ty::Char
    }
    fn val(&self) -> Val {
        Val::C(u32::from(*self))
    }
    fn make(r: &mut Rng, _: u32) -> Self {
        let n = match r.below(5) {
            0 => r.below(128),
            1 => r.below(0x900),
            2 => 0xD700 + r.below(0x1A00),
            3 => 0xFFF0 + r.below(32),
            _ => r.below(0x110000),
        };
        char::from_u32(n as u32).unwrap_or('\u{D7FF}')
    }
}
impl Nat for String {
    fn ty() -> Ty {
        Ty::Str
    }
    fn val(&self) -> Val {
        Val::S(self.as_bytes().to_vec())
    }
    fn make(r: &mut Rng, d: u32) -> Self {
        (0..size(r, d))
            .map(|_| if r.chance(4) { char::make(r, d) } else { (b'a' + r.below(26) as u8) as char })
            .collect()
    }
}
impl Nat for () {
    fn ty() -> Ty {
        Ty::Unit
    }
    fn val(&self) -> Val {
        Val::U
    }
    fn make(_: &mut Rng, _: u32) -> Self {}
}
impl<T: Nat> Nat for Option<T> {
    fn ty() -> Ty {
        Ty::Opt(Box::new(T::ty()))
    }
    fn val(&self) -> Val {
        Val::O(self.as_ref().map(|x| Box::new(x.val())))
    }
    fn make(r: &mut Rng, d: u32) -> Self {
        if r.chance(3) { None } else { Some(T::make(r, d + 1)) }
    }
}
impl<T: Nat> Nat for Box<T> {
    fn ty() -> Ty {
        T::ty()
    }
    fn val(&self) -> Val {
        T::val(self)
    }
    fn make(r: &mut Rng, d: u32) -> Self {
        Box::new(T::make(r, d))
    }
}
#[allow(unused)]
macro_rules! nat_seq {
    ($($c:ident),*) => { $(impl<T: Nat> Nat for $c<T> {
        fn ty() -> Ty { Ty::Seq(Box::new(T::ty())) }
        fn val(&self) -> Val { Val::Xs(self.iter().map(T::val).collect()) }
        fn make(r: &mut Rng, d: u32) -> Self { (0..size(r, d)).map(|_| T::make(r, d + 1)).collect() }
    })* };
}
nat_seq!(Vec, VecDeque);
#[allow(unused)]
macro_rules! nat_arr {
    ($($n:literal)*) => { $(impl<T: Nat> Nat for [T; $n] {
        fn ty() -> Ty { Ty::Arr(Box::new(T::ty()), $n) }
        fn val(&self) -> Val { Val::Xs(self.iter().map(T::val).collect()) }
        fn make(r: &mut Rng, d: u32) -> Self { std::array::from_fn(|_| T::make(r, d + 1)) }
    })* };
}
nat_arr!(1 2 3 4 5 7 8 16 31 32);
impl<T: Nat> Nat for BTreeMap<u16, T> {
    fn ty() -> Ty {
        Ty::Map(Box::new(Ty::U16), Box::new(T::ty()))
    }
    fn val(&self) -> Val {
        Val::Kv(self.iter().map(|(k, v)| (k.val(), v.val())).collect())
    }
    fn make(r: &mut Rng, d: u32) -> Self {
        (0..size(r, d)).map(|_| (u16::make(r, d), T::make(r, d + 1))).collect()
    }
}
impl<T: Nat> Nat for HashMap<String, T> {
    fn ty() -> Ty {
        Ty::Map(Box::new(Ty::Str), Box::new(T::ty()))
    }
    fn val(&self) -> Val {
        Val::Kv(self.iter().map(|(k, v)| (k.val(), v.val())).collect())
    }
    fn make(r: &mut Rng, d: u32) -> Self {
        (0..size(r, d)).map(|_| (String::make(r, d), T::make(r, d + 1))).collect()
    }
}
#[allow(unused)]
macro_rules! nat_tuple {
    ($($t:ident $i:tt),*) => { impl<$($t: Nat),*> Nat for ($($t,)*) {
        fn ty() -> Ty { Ty::Tup(vec![$($t::ty()),*]) }
        fn val(&self) -> Val { Val::Xs(vec![$(self.$i.val()),*]) }
        fn make(r: &mut Rng, d: u32) -> Self { ($($t::make(r, d + 1),)*) }
    } };
}
nat_tuple!(A 0);
nat_tuple!(A 0, B 1);
nat_tuple!(A 0, B 1, C 2);
nat_tuple!(A 0, B 1, C 2, D 3);

#[allow(unused)]
macro_rules! nat_struct {
    ($n:ident { $($f:ident : $t:ty),* }) => {
        #[derive(Serialize, Deserialize)]
        struct $n { $($f: $t),* }
        impl Nat for $n {
            fn ty() -> Ty { Ty::Struct(vec![$(<$t>::ty()),*]) }
            fn val(&self) -> Val { Val::Xs(vec![$(self.$f.val()),*]) }
            fn make(r: &mut Rng, d: u32) -> Self { $n { $($f: <$t>::make(r, d + 1)),* } }
        }
    };
}
#[allow(unused)]
macro_rules! nat_tstruct {
    ($n:ident ( $($i:tt : $t:ty),* )) => {
        #[derive(Serialize, Deserialize)]
        struct $n ( $($t),* );
        impl Nat for $n {
            fn ty() -> Ty { Ty::TStruct(vec![$(<$t>::ty()),*]) }
            fn val(&self) -> Val { Val::Xs(vec![$(self.$i.val()),*]) }
            fn make(r: &mut Rng, d: u32) -> Self { $n ( $(<$t>::make(r, d + 1)),* ) }
        }
    };
}
#[allow(unused)]
macro_rules! nat_newtype {
    ($n:ident ( $t:ty )) => {
        #[derive(Serialize, Deserialize)]
        struct $n ( $t );
        impl Nat for $n {
            fn ty() -> Ty { Ty::New(Box::new(<$t>::ty())) }
            fn val(&self) -> Val { self.0.val() }
            fn make(r: &mut Rng, d: u32) -> Self { $n ( <$t>::make(r, d + 1) ) }
        }
    };
}
/// an enum: per variant the kind, its fields with binding names
#[allow(unused)]
macro_rules! nat_enum {
    ($n:ident { $($i:literal $v:ident $k:ident $([$($x:ident : $t:ty),*])? $({$($y:ident : $u:ty),*})? ),* }) => {
        #[derive(Serialize, Deserialize)]
        enum $n { $($v $(($($t),*))? $({$($y: $u),*})? ),* }
        impl Nat for $n {
            fn ty() -> Ty { Ty::Enum(vec![$((Vk::$k, vec![$($(<$t>::ty()),*)? $($(<$u>::ty()),*)?])),*]) }
            fn val(&self) -> Val {
                match self { $($n::$v $(($($x),*))? $({$($y),*})? => Val::I($i, vec![$($($x.val()),*)? $($($y.val()),*)?])),* }
            }
            fn make(r: &mut Rng, d: u32) -> Self {
                let n = [$($i),*].len() as u64;
                match r.below(n) {
                    $($i => $n::$v $(($(<$t>::make(r, d + 1)),*))? $({$($y: <$u>::make(r, d + 1)),*})? ,)*
                    _ => unreachable!(),
                }
            }
        }
    };
}

nat_struct!(Point { x: i32, y: u32 });
nat_struct!(Small { a: i8, b: u8, c: i16, d: u16, e: bool });
nat_struct!(Wide { a: i64, b: u64, c: f32, d: f64, e: char });
nat_struct!(Texts { a: String, b: Vec<String>, c: Option<String>, d: () });
nat_struct!(Empty {});
nat_struct!(Nest { a: Point, b: Vec<Point>, c: Option<Box<Small>>, d: (Wide, Empty), e: [Pair; 3] });
nat_tstruct!(Pair ( 0: u16, 1: String ));
nat_tstruct!(Quad ( 0: Option<u8>, 1: (i8, i16), 2: Vec<bool>, 3: Meters ));
nat_newtype!(Meters(f64));
nat_newtype!(Names(Vec<String>));
nat_newtype!(Hull(Shape));
nat_enum!(Shape {
    0 Nothing Unit,
    1 Circle New [r: u32],
    2 Rect Tuple [w: i16, h: u64],
    3 Label Struct { text: String, at: Point },
    4 Many New [xs: Vec<Meters>],
    5 Maybe New [x: Option<Pair>],
    6 Last Unit
});
nat_enum!(Flag { 0 Off Unit, 1 On Unit });
nat_enum!(Only { 0 One Unit });
nat_enum!(Deep { 0 A New [s: Shape], 1 B Tuple [f: Flag, g: Vec<Shape>], 2 C Struct { o: Option<Flag>, n: Nest } });

#[derive(Serialize, Deserialize)]
struct Opaques {
    #[serde(with = "opaque::fixed")]
    a: [u8; 3],
    b: u8,
    #[serde(with = "opaque::variable")]
    c: Vec<u8>,
    #[serde(with = "opaque::fixed")]
    d: [u8; 33],
    e: Vec<VariableArray>,
    f: Option<VariableArray>,
    #[serde(with = "opaque::fixed")]
    g: [u8; 8],
}
fn raw(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.edgy() as u8).collect()
}
impl Nat for Opaques {
    fn ty() -> Ty {
        Ty::Struct(vec![
            Ty::OFix(3),
            Ty::U8,
            Ty::OVar,
            Ty::OFix(33),
            Ty::Seq(Box::new(Ty::OVar)),
            Ty::Opt(Box::new(Ty::OVar)),
            Ty::OFix(8),
        ])
    }
    fn val(&self) -> Val {
        let s = |x: &[u8]| Val::S(x.to_vec());
        Val::Xs(vec![
            s(&self.a),
            self.b.val(),
            s(&self.c),
            s(&self.d),
            Val::Xs(self.e.iter().map(|x| s(&x.data)).collect()),
            Val::O(self.f.as_ref().map(|x| Box::new(s(&x.data)))),
            s(&self.g),
        ])
    }
    fn make(r: &mut Rng, d: u32) -> Self {
        let n = size(r, d);
        Opaques {
            a: raw(r, 3).try_into().unwrap(),
            b: u8::make(r, d),
            c: raw(r, n),
            d: raw(r, 33).try_into().unwrap(),
            e: (0..size(r, d + 2)).map(|i| VariableArray { data: raw(r, i) }).collect(),
            f: if r.chance(2) { None } else { Some(VariableArray { data: raw(r, n + 1) }) },
            g: raw(r, 8).try_into().unwrap(),
        }
    }
}

#[derive(Clone, Copy)]
enum Code {
    Min = i32::MIN as isize,
    Neg = -7,
    Zero = 0,
    Five = 5,
    Max = i32::MAX as isize,
}
const CODES: [Code; 5] = [Code::Min, Code::Neg, Code::Zero, Code::Five, Code::Max];
impl AsRef<i32> for Code {
    fn as_ref(&self) -> &'static i32 {
        match self {
            Code::Min => &i32::MIN,
            Code::Neg => &-7,
            Code::Zero => &0,
            Code::Five => &5,
            Code::Max => &i32::MAX,
        }
    }
}
impl TryFrom<i32> for Code {
    type Error = String;
    fn try_from(n: i32) -> Result<Code, String> {
        CODES.into_iter().find(|c| *c as i32 == n).ok_or_else(|| "none".into())
    }
}
#[derive(Serialize, Deserialize)]
struct Signed {
    #[serde(with = "signed32")]
    a: Code,
    b: u8,
    #[serde(with = "signed32")]
    c: Code,
}
#[derive(Serialize, Deserialize)]
enum Carry {
    X(#[serde(with = "signed32")] Code),
    Y {
        p: u16,
        #[serde(with = "signed32")]
        q: Code,
    },
}
fn s32() -> Ty {
    Ty::S32(vec![i32::MIN, -7, 0, 5, i32::MAX])
}
fn code(r: &mut Rng) -> Code {
    CODES[r.below(5) as usize]
}
fn cv(c: Code) -> Val {
    Val::N(c as i32 as i64)
}
impl Nat for Signed {
    fn ty() -> Ty {
        Ty::Struct(vec![s32(), Ty::U8, s32()])
    }
    fn val(&self) -> Val {
        Val::Xs(vec![cv(self.a), self.b.val(), cv(self.c)])
    }
    fn make(r: &mut Rng, d: u32) -> Self {
        Signed { a: code(r), b: u8::make(r, d), c: code(r) }
    }
}
impl Nat for Carry {
    fn ty() -> Ty {
        Ty::Enum(vec![(Vk::New, vec![s32()]), (Vk::Struct, vec![Ty::U16, s32()])])
    }
    fn val(&self) -> Val {
        match self {
            Carry::X(c) => Val::I(0, vec![cv(*c)]),
            Carry::Y { p, q } => Val::I(1, vec![p.val(), cv(*q)]),
        }
    }
    fn make(r: &mut Rng, d: u32) -> Self {
        if r.chance(2) { Carry::X(code(r)) } else { Carry::Y { p: u16::make(r, d), q: code(r) } }
    }
}

/// what is done with each native type
pub trait Do {
    fn on<T: Nat>(&mut self, name: &'static str);
}

macro_rules! all {
    ($d:ident; $($t:ty),* $(,)?) => { $($d.on::<$t>(stringify!($t));)* };
}
pub fn for_all(d: &mut impl Do) {
    all!(d;
        bool, i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, char, String, (),
        Option<u32>, Option<Option<i16>>, Vec<u8>, Vec<i64>, Vec<String>, Vec<Vec<u16>>, Vec<Option<f32>>,
        VecDeque<char>, Vec<(u8, String)>, Vec<[i8; 3]>, [u8; 1], [String; 4], [u16; 31], [i32; 32], [[u8; 2]; 3],
        (u8,), (i64, String), (bool, (), f64), (u16, Vec<u8>, Option<char>, [bool; 5]),
        BTreeMap<u16, u32>, BTreeMap<u16, Vec<String>>, HashMap<String, u8>, HashMap<String, Option<Point>>,
        Point, Small, Wide, Texts, Empty, Nest, Pair, Quad, Meters, Names, Hull, Shape, Flag, Only, Deep,
        Vec<Shape>, Option<Deep>, Vec<Nest>, Opaques, Vec<Opaques>, Option<Opaques>, Signed, Carry,
        Vec<Signed>, Option<Carry>, [Carry; 4], (Carry, Signed), Vec<Vec<Vec<u8>>>, Vec<f64>, Vec<Flag>, Vec<Pair>,
    );
}
