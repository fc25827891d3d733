//! C14: derived and mutually recursive types. The schema of each is walked along a description of the type written
//! down apart from it; every recurse has to lead to a layer which is that of the type at the recurse.
use crate::ctl::*;
use crate::engine::hex;
use crate::real::*;
use crate::refs::*;
use crate::rng::Rng;
use crate::serdes::{de, ser};
use binschema::{schema, KnownSchema, RecurseStack, ScalarType as T, Schema, SeqSchema};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::*;
use std::fmt::Debug;
use std::hash::Hash;
use std::ops::{Bound, Range, RangeInclusive};

#[derive(Clone, Debug, PartialEq)]
pub enum Desc {
    Leaf(Schema),
    Opt(Box<Desc>),
    Seq(Option<usize>, Box<Desc>),
    Tup(Vec<Desc>),
    Struct(Vec<(&'static str, Desc)>),
    Enum(Vec<(&'static str, Desc)>),
    Named(usize),
}

pub fn st(fs: Vec<(&'static str, Desc)>) -> Desc {
    Desc::Struct(fs)
}

pub trait Rec: KnownSchema + Serialize {
    fn desc() -> Desc;
    fn gen(r: &mut Rng, b: &mut i64) -> Self;
    fn rv(&self) -> RV;
}

macro_rules! leafs {
    ($($t:ty, $v:ident, $s:tt, |$r:ident| $e:expr, |$x:ident| $f:expr;)*) => {$(
        impl Rec for $t {
            fn desc() -> Desc { Desc::Leaf(schema!($s)) }
            fn gen($r: &mut Rng, b: &mut i64) -> Self { *b -= 1; $e }
            fn rv(&self) -> RV { let $x = self; RV::$v($f) }
        }
    )*};
}
leafs! {
    u8, U8, u8, |r| r.int(8) as u8, |x| *x;
    u16, U16, u16, |r| r.int(16) as u16, |x| *x;
    u32, U32, u32, |r| r.int(32) as u32, |x| *x;
    u64, U64, u64, |r| r.int(64) as u64, |x| *x;
    u128, U128, u128, |r| r.int(128), |x| *x;
    usize, U64, u64, |r| r.int(64) as usize, |x| *x as u64;
    i8, I8, i8, |r| r.int(8) as i8, |x| *x;
    i16, I16, i16, |r| r.int(16) as i16, |x| *x;
    i32, I32, i32, |r| r.int(32) as i32, |x| *x;
    i64, I64, i64, |r| r.int(64) as i64, |x| *x;
    i128, I128, i128, |r| r.int(128) as i128, |x| *x;
    isize, I64, i64, |r| r.int(64) as isize, |x| *x as i64;
    bool, Bool, bool, |r| r.chance(1, 2), |x| *x;
    char, Char, char, |r| r.char(), |x| *x;
    String, Str, str, |r| { let mut s = r.string(); s.truncate((0..=12).rev().find(|n| s.is_char_boundary(*n)).unwrap()); s }, |x| x.clone();
}
impl Rec for () {
    fn desc() -> Desc {
        Desc::Leaf(Schema::Unit)
    }
    fn gen(_: &mut Rng, b: &mut i64) -> Self {
        *b -= 1;
    }
    fn rv(&self) -> RV {
        RV::Unit
    }
}
impl<X: Rec> Rec for Option<X> {
    fn desc() -> Desc {
        Desc::Opt(Box::new(X::desc()))
    }
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        *b -= 1;
        if *b <= 0 || r.chance(1, 4) {
            None
        } else {
            Some(X::gen(r, b))
        }
    }
    fn rv(&self) -> RV {
        match self {
            None => RV::None,
            Some(x) => RV::Some(Box::new(x.rv())),
        }
    }
}
impl<X: Rec> Rec for Box<X> {
    fn desc() -> Desc {
        X::desc()
    }
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        Box::new(X::gen(r, b))
    }
    fn rv(&self) -> RV {
        (**self).rv()
    }
}
impl<X: Rec> Rec for &'static X {
    fn desc() -> Desc {
        X::desc()
    }
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        Box::leak(Box::new(X::gen(r, b)))
    }
    fn rv(&self) -> RV {
        (**self).rv()
    }
}
impl<X: Rec> Rec for &'static mut X {
    fn desc() -> Desc {
        X::desc()
    }
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        Box::leak(Box::new(X::gen(r, b)))
    }
    fn rv(&self) -> RV {
        (**self).rv()
    }
}
impl<X: Rec + Clone> Rec for Cow<'static, X> {
    fn desc() -> Desc {
        X::desc()
    }
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        Cow::Owned(X::gen(r, b))
    }
    fn rv(&self) -> RV {
        (**self).rv()
    }
}
fn len(r: &mut Rng, b: &mut i64) -> usize {
    *b -= 1;
    if *b <= 0 {
        0
    } else {
        r.below(4)
    }
}
macro_rules! seqs {
    ($($c:ident [$($x:tt)*];)*) => {$(
        impl<X: Rec $($x)*> Rec for $c<X> {
            fn desc() -> Desc { Desc::Seq(None, Box::new(X::desc())) }
            fn gen(r: &mut Rng, b: &mut i64) -> Self { (0..len(r, b)).map(|_| X::gen(r, b)).collect() }
            fn rv(&self) -> RV { RV::Seq(self.iter().map(|x| x.rv()).collect()) }
        }
    )*};
}
seqs! { Vec []; VecDeque []; LinkedList []; BTreeSet [+ Ord]; HashSet [+ Eq + Hash]; BinaryHeap [+ Ord]; }
macro_rules! maps {
    ($($c:ident [$($x:tt)*];)*) => {$(
        impl<K: Rec $($x)*, X: Rec> Rec for $c<K, X> {
            fn desc() -> Desc { Desc::Seq(None, Box::new(Desc::Tup(vec![K::desc(), X::desc()]))) }
            fn gen(r: &mut Rng, b: &mut i64) -> Self { (0..len(r, b)).map(|_| (K::gen(r, b), X::gen(r, b))).collect() }
            fn rv(&self) -> RV { RV::Seq(self.iter().map(|(k, x)| RV::Tuple(vec![k.rv(), x.rv()])).collect()) }
        }
    )*};
}
maps! { BTreeMap [+ Ord]; HashMap [+ Eq + Hash]; }
macro_rules! arrays {
    ($($n:literal)*) => {$(
        impl<X: Rec> Rec for [X; $n] {
            fn desc() -> Desc { Desc::Seq(Some($n), Box::new(X::desc())) }
            fn gen(r: &mut Rng, b: &mut i64) -> Self { std::array::from_fn(|_| X::gen(r, b)) }
            fn rv(&self) -> RV { RV::Seq(self.iter().map(|x| x.rv()).collect()) }
        }
    )*};
}
arrays! { 0 1 2 3 }
macro_rules! tuples {
    ($(($($x:ident $i:tt),*))*) => {$(
        impl<$($x: Rec),*> Rec for ($($x,)*) {
            fn desc() -> Desc { Desc::Tup(vec![$($x::desc()),*]) }
            fn gen(r: &mut Rng, b: &mut i64) -> Self { ($($x::gen(r, b),)*) }
            fn rv(&self) -> RV { RV::Tuple(vec![$(self.$i.rv()),*]) }
        }
    )*};
}
tuples! { (A 0) (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10) }
impl<X: Rec> Rec for Range<X> {
    fn desc() -> Desc {
        st(vec![("start", X::desc()), ("end", X::desc())])
    }
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        X::gen(r, b)..X::gen(r, b)
    }
    fn rv(&self) -> RV {
        RV::Struct(vec![self.start.rv(), self.end.rv()])
    }
}
impl<X: Rec> Rec for RangeInclusive<X> {
    fn desc() -> Desc {
        st(vec![("start", X::desc()), ("end", X::desc())])
    }
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        X::gen(r, b)..=X::gen(r, b)
    }
    fn rv(&self) -> RV {
        RV::Struct(vec![self.start().rv(), self.end().rv()])
    }
}
impl<X: Rec> Rec for Bound<X> {
    fn desc() -> Desc {
        Desc::Enum(vec![("Unbounded", Desc::Leaf(Schema::Unit)), ("Included", X::desc()), ("Excluded", X::desc())])
    }
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        *b -= 1;
        match if *b <= 0 { 0 } else { r.below(3) } {
            0 => Bound::Unbounded,
            1 => Bound::Included(X::gen(r, b)),
            _ => Bound::Excluded(X::gen(r, b)),
        }
    }
    fn rv(&self) -> RV {
        match self {
            Bound::Unbounded => RV::Enum(0, Box::new(RV::Unit)),
            Bound::Included(x) => RV::Enum(1, Box::new(x.rv())),
            Bound::Excluded(x) => RV::Enum(2, Box::new(x.rv())),
        }
    }
}

fn expand(d: &Desc) -> Desc {
    let mut d = d.clone();
    while let Desc::Named(i) = d {
        d = crate::gen::def(i);
    }
    d
}

/// The schema is that of the described type, every recurse leading to the layer of the type at its place.
fn walk(s: &Schema, ctx: &mut Vec<Desc>, d: &Desc, at: &mut Vec<String>) -> Result<(), String> {
    let d = expand(d);
    let bad = |at: &Vec<String>| Err(format!("at {}: the schema is {} where the type is {:?}", at.join("/"), short(s), d));
    if let Schema::Recurse(n) = s {
        if *n == 0 || *n > ctx.len() {
            return Err(format!("at {}: recurse({}) with {} layers above", at.join("/"), n, ctx.len()));
        }
        let to = &ctx[ctx.len() - n];
        return if *to == d {
            Ok(())
        } else {
            Err(format!("at {}: recurse({}) leads to the layer of {:?} where the type is {:?}", at.join("/"), n, to, d))
        };
    }
    ctx.push(d.clone());
    let mut sub = |s: &Schema, d: &Desc, n: String, at: &mut Vec<String>| {
        at.push(n);
        walk(s, ctx, d, at)?;
        at.pop();
        Ok::<(), String>(())
    };
    match (s, &d) {
        (a, Desc::Leaf(b)) => {
            if a != b {
                return bad(at);
            }
        }
        (Schema::Option(s), Desc::Opt(d)) => sub(s, d, "some".into(), at)?,
        (Schema::Seq(q), Desc::Seq(n, d)) if q.len == *n => sub(&q.inner, d, "elem".into(), at)?,
        (Schema::Tuple(xs), Desc::Tup(ds)) if xs.len() == ds.len() => {
            for (i, (s, d)) in xs.iter().zip(ds).enumerate() {
                sub(s, d, i.to_string(), at)?;
            }
        }
        (Schema::Struct(xs), Desc::Struct(ds)) if xs.len() == ds.len() => {
            for (x, (n, d)) in xs.iter().zip(ds) {
                if x.name != *n {
                    return bad(at);
                }
                sub(&x.inner, d, n.to_string(), at)?;
            }
        }
        (Schema::Enum(xs), Desc::Enum(ds)) if xs.len() == ds.len() => {
            for (x, (n, d)) in xs.iter().zip(ds) {
                if x.name != *n {
                    return bad(at);
                }
                sub(&x.inner, d, n.to_string(), at)?;
            }
        }
        _ => return bad(at),
    }
    ctx.pop();
    Ok(())
}

pub type Test = fn(&mut Rng, i64, Manner) -> Result<usize, String>;

fn write<X: Rec + Debug>(x: &X, name: &str, manner: Manner) -> Result<(Schema, Vec<u8>), String> {
    let s = X::schema(RecurseStack::new());
    walk(&s, &mut vec![], &X::desc(), &mut vec![name.to_string()])?;
    let want = encode(&s, &x.rv()).map_err(|_| format!("{:?} does not conform to {}", x, short(&s)))?;
    let (r, got, fin) = ser(&s, x, manner);
    r.map_err(|e| format!("serializing {:?} under {} {}", x, short(&s), e))?;
    if got != want {
        return Err(format!("serializing {:?} under {} writes {} where FORMAT.txt says {}", x, short(&s), hex(&got), hex(&want)));
    }
    if !fin {
        return Err(format!("serializing {:?} under {} leaves the coder unfinished", x, short(&s)));
    }
    Ok((s, want))
}
pub fn ser_only<X: Rec + Debug>(r: &mut Rng, b: i64, manner: Manner) -> Result<usize, String> {
    let x = X::gen(r, &mut { b });
    Ok(write(&x, std::any::type_name::<X>(), manner)?.1.len())
}
pub fn both<X: Rec + Debug + PartialEq + for<'d> Deserialize<'d>>(r: &mut Rng, b: i64, manner: Manner) -> Result<usize, String> {
    let x = X::gen(r, &mut { b });
    let (s, want) = write(&x, std::any::type_name::<X>(), manner)?;
    let mut data = want.clone();
    data.extend([2, 0x80, 1]);
    let (g, n, fin) = de(&s, &data, manner, |d| X::deserialize(d));
    match g {
        Err(e) => return Err(format!("deserializing {:?} under {} {}", x, short(&s), e)),
        Ok(g) if g != x => return Err(format!("deserializing {:?} gives {:?}", x, g)),
        _ => (),
    }
    if n != want.len() || !fin {
        return Err(format!("deserializing {:?} consumes {} bytes of {}, finished: {}", x, n, want.len(), fin));
    }
    Ok(want.len())
}

// types written by hand: declared recurse levels, long chains, many variants
macro_rules! hand {
    ($($id:literal $t:ident = $d:expr;)*) => {
        pub fn hand(id: usize) -> Desc {
            match id {
                $(x if x == 10_000 + $id => $d,)*
                _ => panic!("no type {}", id),
            }
        }
    };
}
fn d<X: Rec>() -> Desc {
    X::desc()
}
fn unit() -> Desc {
    Desc::Leaf(Schema::Unit)
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, KnownSchema)]
pub struct ByHand {
    val: i32,
    #[schema(recurse = 1)]
    kids: Never,
    next: Option<Box<Attr>>,
}
/// serialized as what the declared recurse says
#[derive(Debug, Clone, PartialEq)]
pub struct Never(Option<Box<ByHand>>);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, KnownSchema)]
pub enum Attr {
    Stop,
    #[allow(dead_code)]
    Go(#[schema(recurse = 1)] Box<Attr>),
    Both(#[schema(recurse = 2)] Box<Attr>, u8),
    Rec {
        a: u16,
        #[schema(recurse = 2)]
        b: Box<Attr>,
    },
}
impl Serialize for Never {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("never"))
    }
}
impl<'d> Deserialize<'d> for Never {
    fn deserialize<S: serde::Deserializer<'d>>(_: S) -> Result<Self, S::Error> {
        Err(serde::de::Error::custom("never"))
    }
}
impl Rec for Attr {
    fn desc() -> Desc {
        Desc::Named(10_001)
    }
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        *b -= 1;
        match if *b <= 0 { 0 } else { r.below(4) } {
            0 => Attr::Stop,
            1 => Attr::Go(Rec::gen(r, b)),
            2 => Attr::Both(Rec::gen(r, b), Rec::gen(r, b)),
            _ => Attr::Rec { a: Rec::gen(r, b), b: Rec::gen(r, b) },
        }
    }
    fn rv(&self) -> RV {
        let e = |o, v| RV::Enum(o, Box::new(v));
        match self {
            Attr::Stop => e(0, RV::Unit),
            Attr::Go(x) => e(1, x.rv()),
            Attr::Both(x, y) => e(2, RV::Tuple(vec![x.rv(), y.rv()])),
            Attr::Rec { a, b } => e(3, RV::Struct(vec![a.rv(), b.rv()])),
        }
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, KnownSchema)]
pub struct List {
    val: u8,
    next: Option<Box<List>>,
}
impl Rec for List {
    fn desc() -> Desc {
        Desc::Named(10_002)
    }
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        let mut l = List { val: 0, next: None };
        let n = if *b > 60 { r.below(900) } else { r.below(20) };
        for i in 0..n {
            l = List { val: i as u8, next: Some(Box::new(l)) };
        }
        *b -= 20;
        l
    }
    fn rv(&self) -> RV {
        RV::Struct(vec![self.val.rv(), self.next.rv()])
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, KnownSchema)]
pub struct Wrap(Vec<Wrap>);
impl Rec for Wrap {
    fn desc() -> Desc {
        Desc::Named(10_003)
    }
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        if *b > 60 && r.chance(1, 4) {
            let mut w = Wrap(vec![]);
            for _ in 0..r.below(900) {
                w = Wrap(vec![w]);
            }
            return w;
        }
        Wrap(Rec::gen(r, b))
    }
    fn rv(&self) -> RV {
        self.0.rv()
    }
}
/// newtypes of newtypes, around a struct which leads back to each
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, KnownSchema)]
pub struct N1(Box<N2>);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, KnownSchema)]
pub struct N2(Box<N3>);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, KnownSchema)]
pub struct N3 {
    n1: Option<N1>,
    n2: Vec<N2>,
    n3: Option<Box<N3>>,
    m: BTreeMap<u8, (N1, N2)>,
}
macro_rules! wraps {
    ($($t:ident $id:literal;)*) => {$(
        impl Rec for $t {
            fn desc() -> Desc { Desc::Named($id) }
            fn gen(r: &mut Rng, b: &mut i64) -> Self { $t(Rec::gen(r, b)) }
            fn rv(&self) -> RV { self.0.rv() }
        }
    )*};
}
wraps! { N1 10_004; N2 10_005; }
impl Rec for N3 {
    fn desc() -> Desc {
        Desc::Named(10_006)
    }
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        *b -= 1;
        N3 { n1: Rec::gen(r, b), n2: Rec::gen(r, b), n3: Rec::gen(r, b), m: Rec::gen(r, b) }
    }
    fn rv(&self) -> RV {
        RV::Struct(vec![self.n1.rv(), self.n2.rv(), self.n3.rv(), self.m.rv()])
    }
}
/// every way of standing for something else, serialized only
#[derive(Debug, PartialEq, Serialize, KnownSchema)]
pub struct Refs {
    r: Option<&'static Refs>,
    m: Vec<&'static mut Refs>,
    b: Option<Box<&'static Box<Refs>>>,
    c: Vec<Cow<'static, List>>,
    t: Option<Box<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, Refs)>>,
}
impl Rec for Refs {
    fn desc() -> Desc {
        Desc::Named(10_007)
    }
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        *b -= 3;
        *b = (*b).min(40);
        Refs { r: Rec::gen(r, b), m: Rec::gen(r, b), b: Rec::gen(r, b), c: Rec::gen(r, b), t: Rec::gen(r, b) }
    }
    fn rv(&self) -> RV {
        RV::Struct(vec![self.r.rv(), self.m.rv(), self.b.rv(), self.c.rv(), self.t.rv()])
    }
}
macro_rules! many {
    ($($v:ident)*) => {
        #[derive(Debug, Clone, PartialEq, Serialize, Deserialize, KnownSchema)]
        pub enum Many { $($v,)* End(Option<Box<Many>>), Both { a: Box<Many>, b: Vec<Many> } }
        impl Rec for Many {
            fn desc() -> Desc { Desc::Named(10_008) }
            fn gen(r: &mut Rng, b: &mut i64) -> Self {
                *b -= 1;
                if *b > 0 && r.chance(1, 3) { return Many::End(Rec::gen(r, b)); }
                if *b > 0 && r.chance(1, 3) { return Many::Both { a: Rec::gen(r, b), b: Rec::gen(r, b) }; }
                let all = [$(Many::$v),*];
                r.pick(&all).clone()
            }
            fn rv(&self) -> RV {
                let all = [$(Many::$v),*];
                match self {
                    Many::End(x) => RV::Enum(all.len(), Box::new(x.rv())),
                    Many::Both { a, b } => RV::Enum(all.len() + 1, Box::new(RV::Struct(vec![a.rv(), b.rv()]))),
                    x => RV::Enum(all.iter().position(|y| y == x).unwrap(), Box::new(RV::Unit)),
                }
            }
        }
        fn many_desc() -> Desc {
            Desc::Enum(vec![$((stringify!($v), unit()),)* ("End", d::<Option<Many>>()), ("Both", st(vec![("a", d::<Many>()), ("b", d::<Vec<Many>>())]))])
        }
    };
}
many! { A0 A1 A2 A3 A4 A5 A6 A7 A8 A9 B0 B1 B2 B3 B4 B5 B6 B7 B8 B9 C0 C1 C2 C3 C4 C5 C6 C7 C8 C9 D0 D1 D2 D3 D4 D5 D6 D7 D8 D9
E0 E1 E2 E3 E4 E5 E6 E7 E8 E9 F0 F1 F2 F3 F4 F5 F6 F7 F8 F9 G0 G1 G2 G3 G4 G5 G6 G7 G8 G9 H0 H1 H2 H3 H4 H5 H6 H7 H8 H9
I0 I1 I2 I3 I4 I5 I6 I7 I8 I9 J0 J1 J2 J3 J4 J5 J6 J7 J8 J9 K0 K1 K2 K3 K4 K5 K6 K7 K8 K9 L0 L1 L2 L3 L4 L5 L6 L7 L8 L9
M0 M1 M2 M3 M4 M5 M6 M7 M8 M9 N0 N1 N2 N3 N4 N5 N6 N7 N8 N9 O0 O1 O2 O3 O4 O5 O6 O7 O8 O9 P0 P1 P2 P3 P4 P5 P6 P7 P8 P9
Q0 Q1 Q2 Q3 Q4 Q5 Q6 Q7 Q8 Q9 R0 R1 R2 R3 R4 R5 R6 R7 R8 R9 S0 S1 S2 S3 S4 S5 S6 S7 S8 S9 T0 T1 T2 T3 T4 T5 T6 T7 T8 T9
U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 V0 V1 V2 V3 V4 V5 V6 V7 V8 V9 W0 W1 W2 W3 W4 W5 W6 W7 W8 W9 X0 X1 X2 X3 X4 X5 X6 X7 X8 X9
Y0 Y1 Y2 Y3 Y4 Y5 Y6 Y7 Y8 Y9 Z0 Z1 Z2 Z3 Z4 Z5 Z6 Z7 Z8 Z9 }

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, KnownSchema)]
pub struct ZeroA {
    only: ZeroB,
    back: Vec<ZeroA>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, KnownSchema)]
pub enum ZeroB {
    One(Vec<ZeroA>),
}
impl Rec for ZeroA {
    fn desc() -> Desc {
        Desc::Named(10_009)
    }
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        ZeroA { only: Rec::gen(r, b), back: Rec::gen(r, b) }
    }
    fn rv(&self) -> RV {
        RV::Struct(vec![self.only.rv(), self.back.rv()])
    }
}
impl Rec for ZeroB {
    fn desc() -> Desc {
        Desc::Named(10_010)
    }
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        ZeroB::One(Rec::gen(r, b))
    }
    fn rv(&self) -> RV {
        let ZeroB::One(x) = self;
        RV::Enum(0, Box::new(x.rv()))
    }
}
/// the same name as another type elsewhere, and a schema that a neighbour also has
pub mod twin {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize, KnownSchema)]
    pub struct List {
        val: u8,
        next: Option<Box<super::List>>,
        twin: Option<Box<List>>,
    }
    impl Rec for List {
        fn desc() -> Desc {
            Desc::Named(10_011)
        }
        fn gen(r: &mut Rng, b: &mut i64) -> Self {
            *b = (*b).min(50) - 1;
            List { val: 1, next: Rec::gen(r, b), twin: Rec::gen(r, b) }
        }
        fn rv(&self) -> RV {
            RV::Struct(vec![self.val.rv(), self.next.rv(), self.twin.rv()])
        }
    }
}
fn twin_desc() -> Desc {
    st(vec![("val", d::<u8>()), ("next", d::<Option<List>>()), ("twin", d::<Option<twin::List>>())])
}
hand! {
    1 Attr = Desc::Enum(vec![("Stop", unit()), ("Go", d::<Attr>()), ("Both", Desc::Tup(vec![d::<Attr>(), d::<u8>()])), ("Rec", st(vec![("a", d::<u16>()), ("b", d::<Attr>())]))]);
    2 List = st(vec![("val", d::<u8>()), ("next", d::<Option<List>>())]);
    3 Wrap = d::<Vec<Wrap>>();
    4 N1 = d::<N2>();
    5 N2 = d::<N3>();
    6 N3 = st(vec![("n1", d::<Option<N1>>()), ("n2", d::<Vec<N2>>()), ("n3", d::<Option<N3>>()), ("m", d::<BTreeMap<u8, (N1, N2)>>())]);
    7 Refs = st(vec![("r", d::<Option<Refs>>()), ("m", d::<Vec<Refs>>()), ("b", d::<Option<Refs>>()), ("c", d::<Vec<List>>()), ("t", d::<Option<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, Refs)>>())]);
    8 Many = many_desc();
    9 ZeroA = st(vec![("only", d::<ZeroB>()), ("back", d::<Vec<ZeroA>>())]);
    10 ZeroB = Desc::Enum(vec![("One", d::<Vec<ZeroA>>())]);
    11 Twin = twin_desc();
}

/// A declared recurse is taken as it is declared.
fn by_hand() -> Result<(), String> {
    let s = ByHand::schema(RecurseStack::new());
    let w = schema!(struct { (val: i32), (kids: recurse(1)), (next: option(%Attr::schema(RecurseStack::new()))) });
    if s != w {
        return Err(format!("ByHand has schema {} and not {}", short(&s), short(&w)));
    }
    let _ = T::U8;
    let _ = SeqSchema { len: None, inner: Box::new(s) };
    Ok(())
}

pub fn c14(ctl: &mut Ctl) -> Res {
    let mut all: Vec<(&'static str, Test)> = vec![
        ("Attr", both::<Attr>),
        ("List", both::<List>),
        ("Wrap", both::<Wrap>),
        ("N1", both::<N1>),
        ("N2", both::<N2>),
        ("N3", both::<N3>),
        ("Refs", ser_only::<Refs>),
        ("Many", both::<Many>),
        ("ZeroA", both::<ZeroA>),
        ("ZeroB", both::<ZeroB>),
        ("Option<N2>", both::<Option<N2>>),
        ("(ZeroB, Vec<ZeroA>, ZeroA)", both::<(ZeroB, Vec<ZeroA>, ZeroA)>),
        ("BTreeMap<u8, Attr>", both::<BTreeMap<u8, Attr>>),
        ("twin::List", both::<twin::List>),
        ("(List, twin::List)", both::<(List, twin::List)>),
    ];
    all.extend(crate::gen::roots());
    if let Err(e) = by_hand() {
        return found(0, e);
    }
    let n = all.len() as u64;
    for (i, (name, t)) in all.iter().enumerate() {
        let c = i as u64 + 1;
        if !ctl.want(c) {
            continue;
        }
        ctl.inflight(&format!("{} C14 case {}", name, c));
        for b in [0, 3, 10, 30] {
            ctl.eval(&(c, b));
            if let Err(e) = t(&mut Rng::new(ctl.seed, c), b, MANNERS[0]) {
                return found(c, format!("type {}: {}", name, e));
            }
        }
    }
    let mut i = 0;
    while let Some(c) = ctl.next_case(n + 1000, &mut i) {
        let mut r = Rng::new(ctl.seed, c);
        let (name, t) = all[r.below(all.len())];
        ctl.inflight(&format!("{} C14 case {}", name, c));
        let b = *r.pick(&[1, 5, 20, 50, 120]);
        let manner = *r.pick(&MANNERS);
        ctl.eval(&c);
        match t(&mut r, b, manner) {
            Err(e) => return found(c, format!("type {}: {}", name, e)),
            Ok(n) => ctl.sample(|| format!("a value of type {}, {} bytes", name, n)),
        }
    }
    Ok(())
}
