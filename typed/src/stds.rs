//! C13: the standard types that have a known schema, against schemas and values written down here.
use crate::ctl::*;
use crate::engine::hex;
use crate::real::*;
use crate::refs::*;
use crate::rng::Rng;
use crate::serdes::{de, ser};
use binschema::{schema, KnownSchema, RecurseStack, Schema, SeqSchema};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::*;
use std::hash::Hash;
use std::ops::{Bound, Range, RangeInclusive};

pub trait Std: KnownSchema + Serialize {
    /// the schema it should have
    fn want() -> Schema;
    fn gen(r: &mut Rng, d: usize) -> Self;
    /// the value, in the order in which it serializes
    fn rv(&self) -> RV;
    /// the value, in an order of no accident
    fn canon(&self) -> RV {
        self.rv()
    }
}

fn opt(s: Schema) -> Schema {
    Schema::Option(Box::new(s))
}
fn seq(len: Option<usize>, s: Schema) -> Schema {
    Schema::Seq(SeqSchema { len, inner: Box::new(s) })
}
fn len(r: &mut Rng, d: usize) -> usize {
    if d == 0 {
        0
    } else {
        r.below(4)
    }
}

macro_rules! ints {
    ($($t:ident $v:ident $s:tt $bits:expr;)*) => {$(
        impl Std for $t {
            fn want() -> Schema { schema!($s) }
            fn gen(r: &mut Rng, _: usize) -> Self { r.int($bits) as $t }
            fn rv(&self) -> RV { RV::$v(*self as _) }
        }
    )*};
}
ints! {
    u8 U8 u8 8; u16 U16 u16 16; u32 U32 u32 32; u64 U64 u64 64; u128 U128 u128 128; usize U64 u64 64;
    i8 I8 i8 8; i16 I16 i16 16; i32 I32 i32 32; i64 I64 i64 64; i128 I128 i128 128; isize I64 i64 64;
}
impl Std for f32 {
    fn want() -> Schema {
        schema!(f32)
    }
    fn gen(r: &mut Rng, _: usize) -> Self {
        f32::from_bits(r.next() as u32)
    }
    fn rv(&self) -> RV {
        RV::F32(self.to_bits())
    }
}
impl Std for f64 {
    fn want() -> Schema {
        schema!(f64)
    }
    fn gen(r: &mut Rng, _: usize) -> Self {
        f64::from_bits(r.next())
    }
    fn rv(&self) -> RV {
        RV::F64(self.to_bits())
    }
}
impl Std for char {
    fn want() -> Schema {
        schema!(char)
    }
    fn gen(r: &mut Rng, _: usize) -> Self {
        r.char()
    }
    fn rv(&self) -> RV {
        RV::Char(*self)
    }
}
impl Std for bool {
    fn want() -> Schema {
        schema!(bool)
    }
    fn gen(r: &mut Rng, _: usize) -> Self {
        r.chance(1, 2)
    }
    fn rv(&self) -> RV {
        RV::Bool(*self)
    }
}
impl Std for () {
    fn want() -> Schema {
        schema!(unit)
    }
    fn gen(_: &mut Rng, _: usize) -> Self {}
    fn rv(&self) -> RV {
        RV::Unit
    }
}
impl Std for String {
    fn want() -> Schema {
        schema!(str)
    }
    fn gen(r: &mut Rng, _: usize) -> Self {
        r.string()
    }
    fn rv(&self) -> RV {
        RV::Str(self.clone())
    }
}
impl<T: Std> Std for Option<T> {
    fn want() -> Schema {
        opt(T::want())
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        if d > 0 && r.chance(2, 3) {
            Some(T::gen(r, d - 1))
        } else {
            None
        }
    }
    fn rv(&self) -> RV {
        self.as_ref().map(|x| RV::Some(Box::new(x.rv()))).unwrap_or(RV::None)
    }
    fn canon(&self) -> RV {
        self.as_ref().map(|x| RV::Some(Box::new(x.canon()))).unwrap_or(RV::None)
    }
}
fn sorted(mut v: Vec<RV>) -> RV {
    v.sort_by_key(|x| format!("{:?}", x));
    RV::Seq(v)
}
macro_rules! seqs {
    ($($c:ident [$($b:tt)*];)*) => {$(
        impl<T: Std $($b)*> Std for $c<T> {
            fn want() -> Schema { seq(None, T::want()) }
            fn gen(r: &mut Rng, d: usize) -> Self { (0..len(r, d)).map(|_| T::gen(r, d - 1)).collect() }
            fn rv(&self) -> RV { RV::Seq(self.iter().map(|x| x.rv()).collect()) }
            fn canon(&self) -> RV {
                let v: Vec<RV> = self.iter().map(|x| x.canon()).collect();
                if matches!(stringify!($c), "HashSet" | "BinaryHeap") { sorted(v) } else { RV::Seq(v) }
            }
        }
    )*};
}
seqs! {
    Vec []; BinaryHeap [+ Ord]; BTreeSet [+ Ord]; HashSet [+ Hash + Eq]; LinkedList []; VecDeque [];
}
macro_rules! maps {
    ($($c:ident [$($b:tt)*];)*) => {$(
        impl<K: Std $($b)*, V: Std> Std for $c<K, V> {
            fn want() -> Schema { seq(None, Schema::Tuple(vec![K::want(), V::want()])) }
            fn gen(r: &mut Rng, d: usize) -> Self { (0..len(r, d)).map(|_| (K::gen(r, d - 1), V::gen(r, d - 1))).collect() }
            fn rv(&self) -> RV { RV::Seq(self.iter().map(|(k, v)| RV::Tuple(vec![k.rv(), v.rv()])).collect()) }
            fn canon(&self) -> RV {
                sorted(self.iter().map(|(k, v)| RV::Tuple(vec![k.canon(), v.canon()])).collect())
            }
        }
    )*};
}
maps! { BTreeMap [+ Ord]; HashMap [+ Hash + Eq]; }
impl<T: Std, const N: usize> Std for [T; N]
where
    [T; N]: Serialize,
{
    fn want() -> Schema {
        seq(Some(N), T::want())
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        std::array::from_fn(|_| T::gen(r, d.max(1) - 1))
    }
    fn rv(&self) -> RV {
        RV::Seq(self.iter().map(|x| x.rv()).collect())
    }
    fn canon(&self) -> RV {
        RV::Seq(self.iter().map(|x| x.canon()).collect())
    }
}
macro_rules! tuples {
    ($(($($t:ident $i:tt),*);)*) => {$(
        impl<$($t: Std),*> Std for ($($t,)*) {
            fn want() -> Schema { Schema::Tuple(vec![$($t::want()),*]) }
            fn gen(r: &mut Rng, d: usize) -> Self { ($($t::gen(r, d.max(1) - 1),)*) }
            fn rv(&self) -> RV { RV::Tuple(vec![$(self.$i.rv()),*]) }
            fn canon(&self) -> RV { RV::Tuple(vec![$(self.$i.canon()),*]) }
        }
    )*};
}
tuples! {
    (A 0); (A 0, B 1); (A 0, B 1, C 2); (A 0, B 1, C 2, D 3); (A 0, B 1, C 2, D 3, E 4); (A 0, B 1, C 2, D 3, E 4, F 5);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6); (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7); (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9); (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
}
fn ends(s: Schema) -> Schema {
    Schema::Struct(vec![("start", s.clone()).into(), ("end", s).into()])
}
impl<T: Std> Std for Range<T> {
    fn want() -> Schema {
        ends(T::want())
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        T::gen(r, d.max(1) - 1)..T::gen(r, d.max(1) - 1)
    }
    fn rv(&self) -> RV {
        RV::Struct(vec![self.start.rv(), self.end.rv()])
    }
    fn canon(&self) -> RV {
        RV::Struct(vec![self.start.canon(), self.end.canon()])
    }
}
impl<T: Std> Std for RangeInclusive<T> {
    fn want() -> Schema {
        ends(T::want())
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        T::gen(r, d.max(1) - 1)..=T::gen(r, d.max(1) - 1)
    }
    fn rv(&self) -> RV {
        RV::Struct(vec![self.start().rv(), self.end().rv()])
    }
    fn canon(&self) -> RV {
        RV::Struct(vec![self.start().canon(), self.end().canon()])
    }
}
impl<T: Std> Std for Bound<T> {
    fn want() -> Schema {
        Schema::Enum(vec![("Unbounded", Schema::Unit).into(), ("Included", T::want()).into(), ("Excluded", T::want()).into()])
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        match r.below(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(T::gen(r, d.max(1) - 1)),
            _ => Bound::Excluded(T::gen(r, d.max(1) - 1)),
        }
    }
    fn rv(&self) -> RV {
        match self {
            Bound::Unbounded => RV::Enum(0, Box::new(RV::Unit)),
            Bound::Included(x) => RV::Enum(1, Box::new(x.rv())),
            Bound::Excluded(x) => RV::Enum(2, Box::new(x.rv())),
        }
    }
    fn canon(&self) -> RV {
        match self {
            Bound::Unbounded => RV::Enum(0, Box::new(RV::Unit)),
            Bound::Included(x) => RV::Enum(1, Box::new(x.canon())),
            Bound::Excluded(x) => RV::Enum(2, Box::new(x.canon())),
        }
    }
}
impl<T: Std> Std for Box<T> {
    fn want() -> Schema {
        T::want()
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        Box::new(T::gen(r, d))
    }
    fn rv(&self) -> RV {
        (**self).rv()
    }
    fn canon(&self) -> RV {
        (**self).canon()
    }
}
impl<T: Std + Clone> Std for Cow<'static, T> {
    fn want() -> Schema {
        T::want()
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        Cow::Owned(T::gen(r, d))
    }
    fn rv(&self) -> RV {
        (**self).rv()
    }
    fn canon(&self) -> RV {
        (**self).canon()
    }
}
impl<T: Std + 'static> Std for &'static T {
    fn want() -> Schema {
        T::want()
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        // few of these are made
        Box::leak(Box::new(T::gen(r, d)))
    }
    fn rv(&self) -> RV {
        (**self).rv()
    }
    fn canon(&self) -> RV {
        (**self).canon()
    }
}
impl<T: Std + 'static> Std for &'static mut T {
    fn want() -> Schema {
        T::want()
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        Box::leak(Box::new(T::gen(r, d)))
    }
    fn rv(&self) -> RV {
        (**self).rv()
    }
    fn canon(&self) -> RV {
        (**self).canon()
    }
}

struct Other;
impl KnownSchema for Other {
    fn schema(_: RecurseStack) -> Schema {
        schema!(unit)
    }
}

/// The schema at the root and below all sorts of layers.
fn schemas<T: KnownSchema + ?Sized>(want: &Schema) -> Result<(), String> {
    let name = std::any::type_name::<T>();
    let root = RecurseStack::new();
    let a = root.with_type_layer::<Other>();
    let b = a.with_none_layer();
    let c = b.with_type_layer::<T>();
    let d = c.with_transparent_type_layer::<Other>();
    let e = d.with_type_layer::<Vec<u8>>();
    let f = e.with_transparent_type_layer::<T>();
    let n = f.with_none_layer();
    for (at, s) in [("the root", root), ("one layer down", a), ("two layers down", b), ("below itself", c), ("deep down", e), ("inside itself", f), ("deeper down", n)] {
        let got = T::schema(s);
        if got != *want {
            return Err(format!("the known schema of {} at {} is {}, should be {}", name, at, short(&got), short(want)));
        }
    }
    Ok(())
}

fn values<T: Std>(ctl: &mut Ctl, n: u64, des: Option<fn(&Schema, &[u8], Manner) -> (Result<T, String>, usize, bool)>) -> Res {
    let name = std::any::type_name::<T>();
    let s = T::schema(RecurseStack::new());
    let mut r = Rng::new(ctl.seed, n);
    for k in 0..if name.contains('&') { 4 } else { 10 } {
        let x = T::gen(&mut r, if k == 0 { 0 } else { 4 });
        let rv = x.rv();
        let about = || format!("{:?} of type {} with its known schema {}", rv, name, short(&s));
        ctl.eval(&(format!("{:?}", rv), name));
        ctl.sample(about);
        let want = encode(&T::want(), &rv).expect("conforms");
        let m = MANNERS[k % 3];
        let (e, got, fin) = ser(&s, &x, m);
        if e.is_err() || got != want || !fin {
            return found(n, format!("serializing {}: {:?}, wrote {} where FORMAT.txt says {}, finished is {}", about(), e, hex(&got), hex(&want), fin));
        }
        if let Some(d) = des {
            let mut data = want.clone();
            data.extend([1, 0, 0xff]);
            let (y, p, fin) = d(&s, &data, m);
            match y {
                Ok(y) if y.canon() == x.canon() && p == want.len() && fin => (),
                y => return found(n, format!("deserializing {} from {}: {:?}, read {} of {} bytes, finished is {}", about(), hex(&data), y.map(|y| y.rv()), p, want.len(), fin)),
            }
        }
    }
    Ok(())
}

fn dd<T: Std + for<'d> Deserialize<'d>>(s: &Schema, data: &[u8], m: Manner) -> (Result<T, String>, usize, bool) {
    de(s, data, m, |d| T::deserialize(d))
}

fn both<T: Std + for<'d> Deserialize<'d>>(ctl: &mut Ctl, n: u64) -> Res {
    ctl.inflight(&format!("type {}\n{}", std::any::type_name::<T>(), n));
    schemas::<T>(&T::want()).or_else(|e| found(n, e))?;
    values::<T>(ctl, n, Some(dd::<T>))
}
fn only_ser<T: Std>(ctl: &mut Ctl, n: u64) -> Res {
    ctl.inflight(&format!("type {}\n{}", std::any::type_name::<T>(), n));
    schemas::<T>(&T::want()).or_else(|e| found(n, e))?;
    values::<T>(ctl, n, None)
}

type F = fn(&mut Ctl, u64) -> Res;

macro_rules! list {
    ($l:ident; $($t:ty),* $(,)?) => { $( $l.push(both::<$t> as F); )* };
}
/// around every type
macro_rules! around {
    ($l:ident; $($t:ty),* $(,)?) => { $(
        list!($l; $t, Option<$t>, Vec<$t>, LinkedList<$t>, VecDeque<$t>, BTreeMap<u8, $t>, HashMap<String, $t>, [$t; 0], [$t; 1], [$t; 3], ($t,), ($t, u8), (u16, $t, $t),
            Range<$t>, RangeInclusive<$t>, Bound<$t>, Box<$t>, Option<Vec<$t>>, Vec<Option<$t>>, Vec<BTreeMap<String, $t>>, BTreeMap<i8, Vec<$t>>,
            Range<Option<$t>>, Bound<Vec<$t>>, Box<Option<Box<$t>>>, (Vec<$t>, (u8, Bound<$t>)), [[$t; 2]; 2]);
        $l.push(only_ser::<&'static $t> as F);
        $l.push(only_ser::<Vec<&'static $t>> as F);
        $l.push(only_ser::<&'static mut $t> as F);
    )* };
}
macro_rules! around_clone {
    ($l:ident; $($t:ty),* $(,)?) => { $( list!($l; Cow<'static, $t>, Vec<Cow<'static, $t>>, Cow<'static, Vec<$t>>, Option<Cow<'static, Option<$t>>>); )* };
}
macro_rules! around_ord {
    ($l:ident; $($t:ty),* $(,)?) => { $( list!($l; BinaryHeap<$t>, BTreeSet<$t>, HashSet<$t>, BTreeMap<$t, ()>, HashMap<$t, u8>, BTreeMap<$t, BTreeSet<$t>>, Option<BTreeSet<$t>>, Vec<BinaryHeap<$t>>); )* };
}

fn all() -> Vec<F> {
    let mut l: Vec<F> = Vec::new();
    list!(l; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, char, bool, String, ());
    around!(l; u8, isize, f64, String, (), Option<u8>, Vec<u32>, (String, i8), BTreeMap<u8, String>, [u16; 3], Range<u8>, Bound<i8>);
    around_clone!(l; u8, String, (), Vec<u8>, (u8, char));
    around_ord!(l; u8, usize, char, String, (), Option<u8>, Vec<u32>, (String, i8));
    list!(l; (u8, u16, u32), (u8, u16, u32, u64), (u8, u16, u32, u64, u128), (u8, u16, u32, u64, u128, i8), (u8, u16, u32, u64, u128, i8, i16), (u8, u16, u32, u64, u128, i8, i16, i32),
        (u8, u16, u32, u64, u128, i8, i16, i32, i64), (u8, u16, u32, u64, u128, i8, i16, i32, i64, i128), (u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32),
        (String, (), (u8, (u16, (u32, (char,)))), [bool; 5], Option<f64>, Vec<()>, Box<String>, Range<i8>, Bound<u8>, BTreeMap<(), u8>, isize),
        [u8; 32], [String; 17], Option<Option<Option<Option<u8>>>>, Vec<Vec<Vec<Vec<u8>>>>, BTreeMap<u8, BTreeMap<u8, BTreeMap<u8, u8>>>, Bound<Bound<Bound<u8>>>, Range<Range<Range<i8>>>);
    l.push(|ctl, n| unsized_(ctl, n));
    l
}

fn unsized_(ctl: &mut Ctl, n: u64) -> Res {
    schemas::<str>(&schema!(str)).or_else(|e| found(n, e))?;
    schemas::<[u8]>(&schema!(seq(varlen)(u8))).or_else(|e| found(n, e))?;
    schemas::<[Option<String>]>(&schema!(seq(varlen)(option(str)))).or_else(|e| found(n, e))?;
    schemas::<[[u8; 2]]>(&schema!(seq(varlen)(seq(2)(u8)))).or_else(|e| found(n, e))?;
    // longer than serde supports, but known all the same
    schemas::<[u8; 33]>(&schema!(seq(33)(u8))).or_else(|e| found(n, e))?;
    schemas::<[Option<u8>; 1000]>(&schema!(seq(1000)(option(u8)))).or_else(|e| found(n, e))?;
    let mut r = Rng::new(ctl.seed, n);
    for k in 0..8usize {
        let s = r.string();
        let xs: Vec<Option<String>> = (0..k).map(|_| Std::gen(&mut r, 2)).collect();
        for m in MANNERS {
            ctl.eval(&(k, &s, m as u8));
            let (e, got, fin) = ser(&<str as KnownSchema>::schema(RecurseStack::new()), s.as_str(), m);
            let want = encode(&schema!(str), &RV::Str(s.clone())).unwrap();
            if e.is_err() || got != want || !fin {
                return found(n, format!("serializing the str {:?} with its known schema: {:?}, wrote {}, finished is {}", s, e, hex(&got), fin));
            }
            let (e, got, fin) = ser(&<[Option<String>] as KnownSchema>::schema(RecurseStack::new()), xs.as_slice(), m);
            let want = encode(&schema!(seq(varlen)(option(str))), &xs.rv()).unwrap();
            if e.is_err() || got != want || !fin {
                return found(n, format!("serializing the slice {:?} with its known schema: {:?}, wrote {}, finished is {}", xs, e, hex(&got), fin));
            }
        }
    }
    Ok(())
}

pub fn c13(ctl: &mut Ctl) -> Res {
    let l = all();
    for (i, f) in l.iter().enumerate() {
        if ctl.want(i as u64 + 1) {
            f(ctl, i as u64 + 1)?;
        }
    }
    let base = 10_000;
    let mut i = 0;
    while let Some(n) = ctl.next_case(base, &mut i) {
        l[n as usize % l.len()](ctl, n)?;
    }
    Ok(())
}
