//! C12: serde values of every form of the data model, driven as hand-written (de)serialize implementations, through
//! the crate's serde layer, against the reference encoding.
use crate::ctl::*;
use crate::engine::hex;
use crate::real::*;
use crate::refs::*;
use crate::rng::Rng;
use binschema::{schema, CoderState, CoderStateAlloc, Decoder, Encoder, EnumSchemaVariant, ScalarType as T, Schema, SeqSchema, StructSchemaField};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Lay {
    Var,
    Fix(usize),
    Tup(usize),
    Unit,
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Form {
    Seq,
    /// serialized without saying how many elements there are
    SeqNoLen,
    Tuple,
    TupleStruct,
}

#[derive(Clone, Debug, Hash)]
pub enum Ty {
    Leaf(Schema),
    UnitStruct,
    Newtype(Box<Ty>),
    Opt(Box<Ty>),
    Seq(Box<Ty>, Lay, Form),
    Tup(Vec<Ty>, Form),
    Map(Box<Ty>, Box<Ty>),
    /// name, type, whether serialized by skip_field when none
    Struct(Vec<(&'static str, Ty, bool)>),
    /// a variant's type is Leaf(Unit) for a unit variant, Tup or Seq of form TupleStruct for a tuple variant, Struct for a
    /// struct variant, Newtype for a newtype variant
    Enum(Vec<(&'static str, Ty)>),
    /// the type found at this place (from the root) among the layers above
    Up(usize),
}

/// Layers of the schema tree a type adds before what is inside it.
pub fn schema_of(t: &Ty, depth: usize) -> Schema {
    let sub = |t: &Ty| schema_of(t, depth + 1);
    match t {
        Ty::Leaf(s) => s.clone(),
        Ty::UnitStruct => Schema::Unit,
        Ty::Newtype(t) => schema_of(t, depth),
        Ty::Opt(t) => Schema::Option(Box::new(sub(t))),
        Ty::Seq(t, l, _) => match l {
            Lay::Var => Schema::Seq(SeqSchema { len: None, inner: Box::new(sub(t)) }),
            Lay::Fix(n) => Schema::Seq(SeqSchema { len: Some(*n), inner: Box::new(sub(t)) }),
            Lay::Tup(n) => Schema::Tuple((0..*n).map(|_| sub(t)).collect()),
            Lay::Unit => Schema::Unit,
        },
        Ty::Tup(ts, _) => Schema::Tuple(ts.iter().map(sub).collect()),
        Ty::Map(k, v) => {
            let kv = Schema::Tuple(vec![schema_of(k, depth + 2), schema_of(v, depth + 2)]);
            Schema::Seq(SeqSchema { len: None, inner: Box::new(kv) })
        }
        Ty::Struct(fs) => Schema::Struct(fs.iter().map(|(n, t, _)| StructSchemaField { name: n.to_string(), inner: sub(t) }).collect()),
        Ty::Enum(vs) => Schema::Enum(vs.iter().map(|(n, t)| EnumSchemaVariant { name: n.to_string(), inner: sub(t) }).collect()),
        Ty::Up(i) => Schema::Recurse(depth - i),
    }
}

/// The types above a type, each at its depth in the schema tree (a map takes two).
#[derive(Clone, Copy)]
struct Ups<'a> {
    depth: usize,
    ty: &'a Ty,
    next: Option<&'a Ups<'a>>,
}

/// A type with what is above it.
#[derive(Clone, Copy)]
struct At<'a> {
    ty: &'a Ty,
    depth: usize,
    ups: Option<&'a Ups<'a>>,
}

impl<'a> At<'a> {
    fn res(self) -> At<'a> {
        match self.ty {
            Ty::Up(i) => {
                let mut u = self.ups.unwrap();
                while u.depth != *i {
                    u = u.next.unwrap();
                }
                At { ty: u.ty, depth: u.depth, ups: u.next }
            }
            _ => self,
        }
    }
    fn here(self) -> Ups<'a> {
        Ups { depth: self.depth, ty: self.ty, next: self.ups }
    }
}
fn sub<'a>(u: &'a Ups<'a>, t: &'a Ty, more: usize) -> At<'a> {
    At { ty: t, depth: u.depth + more, ups: Some(u) }
}

struct S<'a> {
    at: At<'a>,
    v: &'a RV,
}

fn items(v: &RV) -> &[RV] {
    match v {
        RV::Seq(x) | RV::Tuple(x) | RV::Struct(x) => x,
        _ => &[],
    }
}

fn names<'a>(fs: &[(&'static str, Ty, bool)]) -> &'static [&'static str] {
    fs.iter().map(|f| f.0).collect::<Vec<_>>().leak()
}

/// leaked only once per list
fn names_of(t: &Ty) -> &'static [&'static str] {
    thread_local!(static C: RefCell<std::collections::HashMap<Vec<&'static str>, &'static [&'static str]>> = RefCell::new(Default::default()));
    let l: Vec<&'static str> = match t {
        Ty::Struct(fs) => fs.iter().map(|f| f.0).collect(),
        Ty::Enum(vs) => vs.iter().map(|f| f.0).collect(),
        _ => vec![],
    };
    let _ = names;
    C.with(|c| *c.borrow_mut().entry(l.clone()).or_insert_with(|| l.leak()))
}

impl<'a> Serialize for S<'a> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let at = self.at.res();
        let u = at.here();
        let v = self.v;
        match (at.ty, v) {
            (Ty::Leaf(_), v) => match v {
                RV::U8(x) => z.serialize_u8(*x),
                RV::U16(x) => z.serialize_u16(*x),
                RV::U32(x) => z.serialize_u32(*x),
                RV::U64(x) => z.serialize_u64(*x),
                RV::U128(x) => z.serialize_u128(*x),
                RV::I8(x) => z.serialize_i8(*x),
                RV::I16(x) => z.serialize_i16(*x),
                RV::I32(x) => z.serialize_i32(*x),
                RV::I64(x) => z.serialize_i64(*x),
                RV::I128(x) => z.serialize_i128(*x),
                RV::F32(x) => z.serialize_f32(f32::from_bits(*x)),
                RV::F64(x) => z.serialize_f64(f64::from_bits(*x)),
                RV::Char(x) => z.serialize_char(*x),
                RV::Bool(x) => z.serialize_bool(*x),
                RV::Str(x) if x.len() % 2 == 1 => z.collect_str(x),
                RV::Str(x) => z.serialize_str(x),
                RV::Bytes(x) => z.serialize_bytes(x),
                _ => z.serialize_unit(),
            },
            (Ty::UnitStruct, _) => z.serialize_unit_struct("N"),
            (Ty::Newtype(t), v) => z.serialize_newtype_struct("N", &S { at: At { ty: t, depth: at.depth, ups: at.ups }, v }),
            (Ty::Opt(_), RV::None) => z.serialize_none(),
            (Ty::Opt(t), RV::Some(v)) => z.serialize_some(&S { at: sub(&u, t, 1), v }),
            (Ty::Seq(..) | Ty::Tup(..), v) => {
                let xs = items(v);
                let (f, ty): (Form, Box<dyn Fn(usize) -> &'a Ty>) = match at.ty {
                    Ty::Seq(t, _, f) => (*f, Box::new(move |_| &**t)),
                    Ty::Tup(ts, f) => (*f, Box::new(move |i| &ts[i])),
                    _ => unreachable!(),
                };
                match f {
                    Form::Seq | Form::SeqNoLen => {
                        let mut q = z.serialize_seq(if f == Form::Seq { Some(xs.len()) } else { None })?;
                        for (i, x) in xs.iter().enumerate() {
                            SerializeSeq::serialize_element(&mut q, &S { at: sub(&u, ty(i), 1), v: x })?;
                        }
                        SerializeSeq::end(q)
                    }
                    Form::Tuple => {
                        let mut q = z.serialize_tuple(xs.len())?;
                        for (i, x) in xs.iter().enumerate() {
                            SerializeTuple::serialize_element(&mut q, &S { at: sub(&u, ty(i), 1), v: x })?;
                        }
                        SerializeTuple::end(q)
                    }
                    Form::TupleStruct => {
                        let mut q = z.serialize_tuple_struct("N", xs.len())?;
                        for (i, x) in xs.iter().enumerate() {
                            SerializeTupleStruct::serialize_field(&mut q, &S { at: sub(&u, ty(i), 1), v: x })?;
                        }
                        SerializeTupleStruct::end(q)
                    }
                }
            }
            (Ty::Map(k, t), v) => {
                let xs = items(v);
                let mut q = z.serialize_map(Some(xs.len()))?;
                for (i, x) in xs.iter().enumerate() {
                    let kv = items(x);
                    let (a, b) = (S { at: sub(&u, k, 2), v: &kv[0] }, S { at: sub(&u, t, 2), v: &kv[1] });
                    if i % 2 == 0 {
                        q.serialize_entry(&a, &b)?;
                    } else {
                        q.serialize_key(&a)?;
                        q.serialize_value(&b)?;
                    }
                }
                q.end()
            }
            (Ty::Struct(fs), v) => {
                let xs = items(v);
                let mut q = z.serialize_struct("N", xs.len())?;
                for (x, (n, t, skip)) in xs.iter().zip(fs) {
                    if *skip && *x == RV::None {
                        SerializeStruct::skip_field(&mut q, n)?;
                    } else {
                        SerializeStruct::serialize_field(&mut q, n, &S { at: sub(&u, t, 1), v: x })?;
                    }
                }
                SerializeStruct::end(q)
            }
            (Ty::Enum(vs), RV::Enum(o, v)) => {
                let (n, t) = &vs[*o];
                let o = *o as u32;
                let me = sub(&u, t, 1);
                let here = me.here();
                match t {
                    Ty::Leaf(Schema::Unit) => z.serialize_unit_variant("E", o, n),
                    Ty::Newtype(_) => {
                        let Ty::Newtype(t) = t else { unreachable!() };
                        z.serialize_newtype_variant("E", o, n, &S { at: At { ty: t, depth: me.depth, ups: me.ups }, v })
                    }
                    Ty::Seq(..) | Ty::Tup(..) => {
                        let xs = items(v);
                        let mut q = z.serialize_tuple_variant("E", o, n, xs.len())?;
                        for (i, x) in xs.iter().enumerate() {
                            let ty = match t {
                                Ty::Seq(t, ..) => &**t,
                                Ty::Tup(ts, _) => &ts[i],
                                _ => unreachable!(),
                            };
                            SerializeTupleVariant::serialize_field(&mut q, &S { at: sub(&here, ty, 1), v: x })?;
                        }
                        SerializeTupleVariant::end(q)
                    }
                    Ty::Struct(fs) => {
                        let xs = items(v);
                        let mut q = z.serialize_struct_variant("E", o, n, xs.len())?;
                        for (x, (n, t, skip)) in xs.iter().zip(fs) {
                            if *skip && *x == RV::None {
                                SerializeStructVariant::skip_field(&mut q, n)?;
                            } else {
                                SerializeStructVariant::serialize_field(&mut q, n, &S { at: sub(&here, t, 1), v: x })?;
                            }
                        }
                        SerializeStructVariant::end(q)
                    }
                    t => panic!("no variant of type {:?}", t),
                }
            }
            (t, v) => Err(ser::Error::custom(format!("{:?} is no {:?}", v, t))),
        }
    }
}

#[derive(Clone, Copy)]
struct D<'a> {
    at: At<'a>,
    /// what is expected: asked only for how long a tuple is
    v: &'a RV,
}

/// accepts exactly one form
struct Vis<'a> {
    at: At<'a>,
    v: &'a RV,
}

macro_rules! leaf {
    ($($f:ident $t:ty => $e:expr;)*) => {$(
        fn $f<E: de::Error>(self, x: $t) -> Result<RV, E> {
            let r: RV = $e(x);
            match self.at.ty {
                Ty::Leaf(_) if std::mem::discriminant(&r) == std::mem::discriminant(self.v) => Ok(r),
                _ => Err(E::custom(concat!("not expected: ", stringify!($f)))),
            }
        }
    )*};
}

impl<'a, 'd> Visitor<'d> for Vis<'a> {
    type Value = RV;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.at.ty)
    }
    leaf! {
        visit_u8 u8 => RV::U8;
        visit_u16 u16 => RV::U16;
        visit_u32 u32 => RV::U32;
        visit_u64 u64 => RV::U64;
        visit_u128 u128 => RV::U128;
        visit_i8 i8 => RV::I8;
        visit_i16 i16 => RV::I16;
        visit_i32 i32 => RV::I32;
        visit_i64 i64 => RV::I64;
        visit_i128 i128 => RV::I128;
        visit_f32 f32 => |x: f32| RV::F32(x.to_bits());
        visit_f64 f64 => |x: f64| RV::F64(x.to_bits());
        visit_char char => RV::Char;
        visit_bool bool => RV::Bool;
        visit_str &str => |x: &str| RV::Str(x.into());
        visit_bytes &[u8] => |x: &[u8]| RV::Bytes(x.into());
    }
    fn visit_unit<E: de::Error>(self) -> Result<RV, E> {
        match self.at.ty {
            Ty::Leaf(Schema::Unit) | Ty::UnitStruct => Ok(RV::Unit),
            _ => Err(E::custom("not expected: visit_unit")),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<RV, E> {
        match self.at.ty {
            Ty::Opt(_) => Ok(RV::None),
            _ => Err(E::custom("not expected: visit_none")),
        }
    }
    fn visit_some<Z: Deserializer<'d>>(self, d: Z) -> Result<RV, Z::Error> {
        let u = self.at.here();
        match (self.at.ty, self.v) {
            (Ty::Opt(t), RV::Some(v)) => Ok(RV::Some(Box::new(D { at: sub(&u, t, 1), v }.deserialize(d)?))),
            _ => Err(de::Error::custom("not expected: visit_some")),
        }
    }
    fn visit_newtype_struct<Z: Deserializer<'d>>(self, d: Z) -> Result<RV, Z::Error> {
        match self.at.ty {
            Ty::Newtype(t) => D { at: At { ty: t, depth: self.at.depth, ups: self.at.ups }, v: self.v }.deserialize(d),
            _ => Err(de::Error::custom("not expected: visit_newtype_struct")),
        }
    }
    fn visit_seq<A: SeqAccess<'d>>(self, mut a: A) -> Result<RV, A::Error> {
        let u = self.at.here();
        let want = items(self.v);
        let mut xs = Vec::new();
        let ty = |i: usize| match self.at.ty {
            Ty::Seq(t, ..) => Some(&**t),
            Ty::Tup(ts, _) => ts.get(i),
            _ => None,
        };
        if !matches!(self.at.ty, Ty::Seq(..) | Ty::Tup(..)) {
            return Err(de::Error::custom("not expected: visit_seq"));
        }
        // a tuple's visitor asks for as many elements as it has, a sequence's until there are no more
        let fixed = !matches!(self.at.ty, Ty::Seq(_, _, Form::Seq | Form::SeqNoLen));
        loop {
            if fixed && xs.len() == want.len() {
                break;
            }
            let i = xs.len();
            let (Some(t), Some(v)) = (ty(i), want.get(i)) else {
                // more than there should be?
                return match a.next_element::<IgnoredAny>()? {
                    Some(_) => Err(de::Error::custom("too many elements")),
                    None => Ok(shape(self.v, xs)),
                };
            };
            match a.next_element_seed(D { at: sub(&u, t, 1), v })? {
                Some(x) => xs.push(x),
                None => break,
            }
        }
        Ok(shape(self.v, xs))
    }
    fn visit_map<A: MapAccess<'d>>(self, mut a: A) -> Result<RV, A::Error> {
        let u = self.at.here();
        let want = items(self.v);
        let mut xs = Vec::new();
        match self.at.ty {
            Ty::Map(k, t) => {
                while let Some(w) = want.get(xs.len()) {
                    let kv = items(w);
                    let (ks, vs) = (D { at: sub(&u, k, 2), v: &kv[0] }, D { at: sub(&u, t, 2), v: &kv[1] });
                    let e = if xs.len() % 2 == 0 {
                        a.next_entry_seed(ks, vs)?
                    } else {
                        match a.next_key_seed(ks)? {
                            None => None,
                            Some(k) => Some((k, a.next_value_seed(vs)?)),
                        }
                    };
                    match e {
                        Some((k, v)) => xs.push(RV::Tuple(vec![k, v])),
                        None => break,
                    }
                }
                if a.next_key::<IgnoredAny>()?.is_some() {
                    return Err(de::Error::custom("too many entries"));
                }
                Ok(RV::Seq(xs))
            }
            Ty::Struct(fs) => {
                while let Some(i) = a.next_key_seed(Key(fs.iter().map(|f| f.0).collect()))? {
                    if i != xs.len() {
                        return Err(de::Error::custom("fields out of order"));
                    }
                    xs.push(a.next_value_seed(D { at: sub(&u, &fs[i].1, 1), v: &want[i] })?);
                }
                Ok(RV::Struct(xs))
            }
            _ => Err(de::Error::custom("not expected: visit_map")),
        }
    }
    fn visit_enum<A: EnumAccess<'d>>(self, a: A) -> Result<RV, A::Error> {
        let u = self.at.here();
        let (Ty::Enum(vs), RV::Enum(_, w)) = (self.at.ty, self.v) else { return Err(de::Error::custom("not expected: visit_enum")) };
        let (o, x) = a.variant_seed(Key(vs.iter().map(|f| f.0).collect()))?;
        let t = &vs[o].1;
        let me = sub(&u, t, 1);
        let v = match t {
            Ty::Leaf(Schema::Unit) => {
                x.unit_variant()?;
                RV::Unit
            }
            Ty::Newtype(t) => x.newtype_variant_seed(D { at: At { ty: t, depth: me.depth, ups: me.ups }, v: w })?,
            Ty::Seq(..) | Ty::Tup(..) => x.tuple_variant(items(w).len(), Vis { at: me, v: w })?,
            Ty::Struct(_) => x.struct_variant(names_of(t), Vis { at: me, v: w })?,
            t => panic!("no variant of type {:?}", t),
        };
        Ok(RV::Enum(o, Box::new(v)))
    }
}

/// what `like` is, with these parts
fn shape(like: &RV, xs: Vec<RV>) -> RV {
    match like {
        RV::Tuple(_) => RV::Tuple(xs),
        RV::Unit if xs.is_empty() => RV::Unit,
        _ => RV::Seq(xs),
    }
}

struct Key(Vec<&'static str>);
impl<'d> DeserializeSeed<'d> for Key {
    type Value = usize;
    fn deserialize<Z: Deserializer<'d>>(self, d: Z) -> Result<usize, Z::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'d> Visitor<'d> for Key {
    type Value = usize;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "a name")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<usize, E> {
        self.0.iter().position(|n| *n == s).ok_or_else(|| E::custom("unknown name"))
    }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<usize, E> {
        if (n as usize) < self.0.len() {
            Ok(n as usize)
        } else {
            Err(E::custom("unknown index"))
        }
    }
}

impl<'a, 'd> DeserializeSeed<'d> for D<'a> {
    type Value = RV;
    fn deserialize<Z: Deserializer<'d>>(self, d: Z) -> Result<RV, Z::Error> {
        let at = self.at.res();
        let vis = Vis { at, v: self.v };
        let n = items(self.v).len();
        match at.ty {
            Ty::Leaf(s) => match s {
                Schema::Scalar(t) => match t {
                    T::U8 => d.deserialize_u8(vis),
                    T::U16 => d.deserialize_u16(vis),
                    T::U32 => d.deserialize_u32(vis),
                    T::U64 => d.deserialize_u64(vis),
                    T::U128 => d.deserialize_u128(vis),
                    T::I8 => d.deserialize_i8(vis),
                    T::I16 => d.deserialize_i16(vis),
                    T::I32 => d.deserialize_i32(vis),
                    T::I64 => d.deserialize_i64(vis),
                    T::I128 => d.deserialize_i128(vis),
                    T::F32 => d.deserialize_f32(vis),
                    T::F64 => d.deserialize_f64(vis),
                    T::Char => d.deserialize_char(vis),
                    T::Bool => d.deserialize_bool(vis),
                },
                Schema::Str if at.depth % 2 == 0 => d.deserialize_str(vis),
                Schema::Str => d.deserialize_string(vis),
                Schema::Bytes if at.depth % 2 == 0 => d.deserialize_bytes(vis),
                Schema::Bytes => d.deserialize_byte_buf(vis),
                _ => d.deserialize_unit(vis),
            },
            Ty::UnitStruct => d.deserialize_unit_struct("N", vis),
            Ty::Newtype(_) => d.deserialize_newtype_struct("N", vis),
            Ty::Opt(_) => d.deserialize_option(vis),
            Ty::Seq(_, _, f) | Ty::Tup(_, f) => match f {
                Form::Seq | Form::SeqNoLen => d.deserialize_seq(vis),
                Form::Tuple => d.deserialize_tuple(n, vis),
                Form::TupleStruct => d.deserialize_tuple_struct("N", n, vis),
            },
            Ty::Map(..) => d.deserialize_map(vis),
            Ty::Struct(_) => d.deserialize_struct("N", names_of(at.ty), vis),
            Ty::Enum(_) => d.deserialize_enum("E", names_of(at.ty), vis),
            Ty::Up(_) => unreachable!(),
        }
    }
}

/// What a self-describing target is told.
#[derive(Debug, Clone, PartialEq)]
pub enum Any {
    Leaf(RV),
    None,
    Some(Box<Any>),
    Seq(Vec<Any>),
    Map(Vec<(String, Any)>),
    Enum(u64, Box<Any>),
}

/// What it should be told: the schema alone says.
pub fn any_of<'a>(s: &'a Schema, ctx: &Ctx<'a>, v: &RV) -> Any {
    let (s, ctx) = resolve(s, ctx).unwrap();
    let c = inside(s, &ctx);
    match (s, v) {
        (Schema::Option(_), RV::None) => Any::None,
        (Schema::Option(i), RV::Some(x)) => Any::Some(Box::new(any_of(i, &c, x))),
        (Schema::Seq(q), RV::Seq(xs)) => Any::Seq(xs.iter().map(|x| any_of(&q.inner, &c, x)).collect()),
        (Schema::Tuple(ss), RV::Tuple(xs)) => Any::Seq(ss.iter().zip(xs).map(|(i, x)| any_of(i, &c, x)).collect()),
        (Schema::Struct(fs), RV::Struct(xs)) => Any::Map(fs.iter().zip(xs).map(|(f, x)| (f.name.clone(), any_of(&f.inner, &c, x))).collect()),
        (Schema::Enum(vs), RV::Enum(o, x)) => Any::Enum(*o as u64, Box::new(any_of(&vs[*o].inner, &c, x))),
        (_, v) => Any::Leaf(v.clone()),
    }
}

pub struct AnySeed;
struct Name;
impl<'d> DeserializeSeed<'d> for Name {
    type Value = String;
    fn deserialize<Z: Deserializer<'d>>(self, d: Z) -> Result<String, Z::Error> {
        serde::Deserialize::deserialize(d)
    }
}
struct Ord_;
impl<'d> DeserializeSeed<'d> for Ord_ {
    type Value = u64;
    fn deserialize<Z: Deserializer<'d>>(self, d: Z) -> Result<u64, Z::Error> {
        serde::Deserialize::deserialize(d)
    }
}
impl<'d> DeserializeSeed<'d> for AnySeed {
    type Value = Any;
    fn deserialize<Z: Deserializer<'d>>(self, d: Z) -> Result<Any, Z::Error> {
        d.deserialize_any(self)
    }
}
macro_rules! any_leaf {
    ($($f:ident $t:ty => $e:expr;)*) => {$(
        fn $f<E: de::Error>(self, x: $t) -> Result<Any, E> { Ok(Any::Leaf($e(x))) }
    )*};
}
impl<'d> Visitor<'d> for AnySeed {
    type Value = Any;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "anything")
    }
    any_leaf! {
        visit_u8 u8 => RV::U8;
        visit_u16 u16 => RV::U16;
        visit_u32 u32 => RV::U32;
        visit_u64 u64 => RV::U64;
        visit_u128 u128 => RV::U128;
        visit_i8 i8 => RV::I8;
        visit_i16 i16 => RV::I16;
        visit_i32 i32 => RV::I32;
        visit_i64 i64 => RV::I64;
        visit_i128 i128 => RV::I128;
        visit_f32 f32 => |x: f32| RV::F32(x.to_bits());
        visit_f64 f64 => |x: f64| RV::F64(x.to_bits());
        visit_char char => RV::Char;
        visit_bool bool => RV::Bool;
        visit_str &str => |x: &str| RV::Str(x.into());
        visit_bytes &[u8] => |x: &[u8]| RV::Bytes(x.into());
    }
    fn visit_unit<E: de::Error>(self) -> Result<Any, E> {
        Ok(Any::Leaf(RV::Unit))
    }
    fn visit_none<E: de::Error>(self) -> Result<Any, E> {
        Ok(Any::None)
    }
    fn visit_some<Z: Deserializer<'d>>(self, d: Z) -> Result<Any, Z::Error> {
        Ok(Any::Some(Box::new(AnySeed.deserialize(d)?)))
    }
    fn visit_newtype_struct<Z: Deserializer<'d>>(self, d: Z) -> Result<Any, Z::Error> {
        AnySeed.deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'d>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut xs = Vec::new();
        while let Some(x) = a.next_element_seed(AnySeed)? {
            xs.push(x);
        }
        Ok(Any::Seq(xs))
    }
    fn visit_map<A: MapAccess<'d>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut xs = Vec::new();
        while let Some(k) = a.next_key_seed(Name)? {
            xs.push((k, a.next_value_seed(AnySeed)?));
        }
        Ok(Any::Map(xs))
    }
    fn visit_enum<A: EnumAccess<'d>>(self, a: A) -> Result<Any, A::Error> {
        let (o, x) = a.variant_seed(Ord_)?;
        Ok(Any::Enum(o, Box::new(x.newtype_variant_seed(AnySeed)?)))
    }
}

// ---- running ----

fn kind_text<T>(r: std::thread::Result<Result<T, binschema::error::Error>>) -> Result<T, String> {
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("fails with {:?}: {}", e.kind(), e.to_string().lines().next().unwrap_or(""))),
        Err(p) => Err(format!("panics: {}", panic_text(p))),
    }
}

/// Serialize under a schema: what it came to, the bytes, whether the coder is finished.
pub fn ser(s: &Schema, v: &(impl Serialize + ?Sized), manner: Manner) -> (Result<(), String>, Vec<u8>, bool) {
    let mut st = CoderState::new(s, CoderStateAlloc::new(), None);
    let out = Rc::new(RefCell::new(Vec::new()));
    let mut w = TestWriter { out: out.clone(), limit: usize::MAX, manner, hard: false, tick: false };
    let r = catch_unwind(AssertUnwindSafe(|| v.serialize(&mut Encoder::new(&mut st, &mut w))));
    let o = out.borrow().clone();
    (kind_text(r), o, st.is_finished())
}

/// Deserialize under a schema: what it came to, how many bytes were read, whether the coder is finished.
pub fn de<R>(s: &Schema, data: &[u8], manner: Manner, f: impl FnOnce(&mut Decoder<TestReader>) -> Result<R, binschema::error::Error>) -> (Result<R, String>, usize, bool) {
    let mut st = CoderState::new(s, CoderStateAlloc::new(), None);
    let pos = Rc::new(Cell::new(0));
    let mut rd = TestReader { data, pos: pos.clone(), manner, hard: false, tick: false };
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut Decoder::new(&mut st, &mut rd))));
    (kind_text(r), pos.get(), st.is_finished())
}

fn check(t: &Ty, s: &Schema, v: &RV, manner: Manner) -> Result<(), String> {
    let want = encode(s, v).expect("generated value conforms");
    let at = At { ty: t, depth: 0, ups: None };
    let (r, got, fin) = ser(s, &S { at, v }, manner);
    let about = || format!("value {:?} of serde type {:?} under schema {}", v, t, short(s));
    if let Err(e) = r {
        return Err(format!("serializing {} {}", about(), e));
    }
    if got != want {
        return Err(format!("serializing {} wrote {} where FORMAT.txt says {}", about(), hex(&got), hex(&want)));
    }
    if !fin {
        return Err(format!("serializing {} leaves the coder unfinished", about()));
    }
    let mut data = want.clone();
    data.extend([1, 0x80, 0, 0xff]);
    let (r, n, fin) = de(s, &data, manner, |d| D { at, v }.deserialize(d));
    match r {
        Err(e) => return Err(format!("deserializing {} from {} {}", about(), hex(&data), e)),
        Ok(g) if g != *v => return Err(format!("deserializing {} gives {:?}", about(), g)),
        _ => (),
    }
    if n != want.len() {
        return Err(format!("deserializing {} reads {} bytes of {}", about(), n, want.len()));
    }
    if !fin {
        return Err(format!("deserializing {} leaves the coder unfinished", about()));
    }
    let (r, n, fin) = de(s, &data, manner, |d| AnySeed.deserialize(d));
    let w = any_of(s, &vec![], v);
    match r {
        Err(e) => return Err(format!("deserializing {} into a self-describing target {}", about(), e)),
        Ok(g) if g != w => return Err(format!("deserializing {} into a self-describing target gives {:?}, should be {:?}", about(), g, w)),
        _ => (),
    }
    if n != want.len() || !fin {
        return Err(format!("deserializing {} into a self-describing target reads {} bytes of {}, finished is {}", about(), n, want.len(), fin));
    }
    Ok(())
}

// ---- generation ----

const TNAMES: &[&str] = &["a", "b", "c", "value", "next", "", "é", "Left", "Right", "type", "x1"];

fn gen_ty(r: &mut Rng, fuel: usize, ups: &mut Vec<(usize, bool)>, depth: usize) -> Ty {
    // ups: the layers above by depth; whether one is a place a value can end at
    if fuel > 0 && !ups.is_empty() && r.chance(1, 8) {
        return Ty::Up(r.pick(ups).0);
    }
    if fuel == 0 || r.chance(1, 6) {
        return if r.chance(1, 12) { Ty::UnitStruct } else { Ty::Leaf(r.pick(&leaves()).clone()) };
    }
    match r.below(8) {
        0 => Ty::Newtype(Box::new(gen_ty(r, fuel - 1, ups, depth))),
        1 => {
            ups.push((depth, true));
            let t = Ty::Opt(Box::new(gen_ty(r, fuel - 1, ups, depth + 1)));
            ups.pop();
            t
        }
        2 | 3 => gen_seq(r, fuel, ups, depth),
        4 => {
            ups.push((depth, true));
            let k = gen_ty(r, (fuel - 1).min(1), ups, depth + 2);
            let v = gen_ty(r, fuel - 1, ups, depth + 2);
            ups.pop();
            Ty::Map(Box::new(k), Box::new(v))
        }
        5 => gen_struct(r, fuel, ups, depth),
        _ => {
            let n = 1 + r.below(4);
            ups.push((depth, true));
            let vs = (0..n)
                .map(|i| {
                    let name = TNAMES[(r.below(TNAMES.len()) + i) % TNAMES.len()];
                    let t = match r.below(4) {
                        0 => Ty::Leaf(Schema::Unit),
                        1 => Ty::Newtype(Box::new(gen_ty(r, fuel - 1, ups, depth + 1))),
                        2 => match gen_seq(r, fuel - 1, ups, depth + 1) {
                            Ty::Seq(t, Lay::Var, _) => Ty::Seq(t, Lay::Fix(2), Form::TupleStruct),
                            Ty::Seq(t, l, _) => Ty::Seq(t, l, Form::TupleStruct),
                            Ty::Tup(ts, _) => Ty::Tup(ts, Form::TupleStruct),
                            _ => unreachable!(),
                        },
                        _ => gen_struct(r, fuel - 1, ups, depth + 1),
                    };
                    (name, t)
                })
                .collect::<Vec<_>>();
            ups.pop();
            // names of variants are not looked up by serde, but those of a type are distinct
            let mut seen = std::collections::HashSet::new();
            Ty::Enum(vs.into_iter().filter(|v| seen.insert(v.0)).collect())
        }
    }
}

fn gen_seq(r: &mut Rng, fuel: usize, ups: &mut Vec<(usize, bool)>, depth: usize) -> Ty {
    let f = *r.pick(&[Form::Seq, Form::Seq, Form::Tuple, Form::TupleStruct]);
    ups.push((depth, true));
    let t = if r.chance(1, 2) {
        let t = gen_ty(r, fuel.saturating_sub(1), ups, depth + 1);
        let n = r.below(4);
        let l = match r.below(7) {
            0 | 1 | 2 => Lay::Var,
            3 => Lay::Fix(n),
            4 => Lay::Fix(0),
            5 => Lay::Tup(n),
            _ => Lay::Unit,
        };
        let f = match (f, l) {
            (Form::Seq, Lay::Fix(_) | Lay::Tup(_) | Lay::Unit) if r.chance(1, 2) => Form::SeqNoLen,
            (f, _) => f,
        };
        Ty::Seq(Box::new(t), l, f)
    } else {
        let n = r.below(4);
        Ty::Tup((0..n).map(|_| gen_ty(r, fuel.saturating_sub(1), ups, depth + 1)).collect(), if f == Form::Seq { Form::Tuple } else { f })
    };
    ups.pop();
    t
}

fn gen_struct(r: &mut Rng, fuel: usize, ups: &mut Vec<(usize, bool)>, depth: usize) -> Ty {
    let n = r.below(4);
    ups.push((depth, true));
    let mut fs = Vec::new();
    for i in 0..n {
        let t = gen_ty(r, fuel.saturating_sub(1), ups, depth + 1);
        let skip = matches!(t, Ty::Opt(_)) && r.chance(1, 2);
        fs.push((TNAMES[(i * 3 + 1) % TNAMES.len()], t, skip));
    }
    ups.pop();
    Ty::Struct(fs)
}

/// types worth trying whatever the seed: every form, empty, and inside every other
fn fixed() -> Vec<Ty> {
    let leaf = |s: Schema| Ty::Leaf(s);
    let mut small = vec![
        leaf(schema!(u8)),
        leaf(schema!(str)),
        leaf(schema!(bytes)),
        leaf(schema!(unit)),
        Ty::UnitStruct,
        Ty::Newtype(Box::new(leaf(schema!(u16)))),
        Ty::Opt(Box::new(leaf(schema!(u8)))),
        Ty::Opt(Box::new(leaf(schema!(unit)))),
        Ty::Map(Box::new(leaf(schema!(u8))), Box::new(leaf(schema!(str)))),
        Ty::Struct(vec![]),
        Ty::Struct(vec![("a", leaf(schema!(u8)), false)]),
        Ty::Struct(vec![("a", Ty::Opt(Box::new(leaf(schema!(u8)))), true), ("b", Ty::Opt(Box::new(leaf(schema!(u8)))), true)]),
        Ty::Enum(vec![("a", leaf(schema!(unit)))]),
    ];
    for f in [Form::Seq, Form::SeqNoLen, Form::Tuple, Form::TupleStruct] {
        if f != Form::SeqNoLen {
            small.push(Ty::Seq(Box::new(leaf(schema!(u8))), Lay::Var, f));
        }
        for l in [Lay::Fix(0), Lay::Fix(2), Lay::Tup(0), Lay::Tup(2), Lay::Unit] {
            small.push(Ty::Seq(Box::new(leaf(schema!(u8))), l, f));
        }
        if f == Form::Tuple || f == Form::TupleStruct {
            small.push(Ty::Tup(vec![], f));
            small.push(Ty::Tup(vec![leaf(schema!(u8))], f));
            small.push(Ty::Tup(vec![leaf(schema!(u8)), leaf(schema!(str))], f));
        }
    }
    let mut all: Vec<Ty> = leaves().into_iter().map(Ty::Leaf).collect();
    for t in &small {
        all.push(t.clone());
        let b = || Box::new(t.clone());
        all.push(Ty::Newtype(b()));
        all.push(Ty::Opt(b()));
        all.push(Ty::Opt(Box::new(Ty::Opt(b()))));
        all.push(Ty::Seq(b(), Lay::Var, Form::Seq));
        all.push(Ty::Seq(b(), Lay::Fix(2), Form::Tuple));
        all.push(Ty::Seq(b(), Lay::Tup(2), Form::TupleStruct));
        all.push(Ty::Tup(vec![t.clone(), leaf(schema!(u8)), t.clone()], Form::Tuple));
        all.push(Ty::Map(b(), b()));
        all.push(Ty::Struct(vec![("a", t.clone(), false), ("b", t.clone(), matches!(t, Ty::Opt(_)))]));
        let mut vs = vec![("u", leaf(schema!(unit))), ("n", Ty::Newtype(b())), ("s", Ty::Struct(vec![("x", t.clone(), matches!(t, Ty::Opt(_))), ("y", t.clone(), false)]))];
        vs.push(("t", Ty::Tup(vec![t.clone(), t.clone()], Form::TupleStruct)));
        if matches!(t, Ty::Tup(_, Form::TupleStruct) | Ty::Struct(_) | Ty::Seq(_, Lay::Fix(_) | Lay::Tup(_) | Lay::Unit, Form::TupleStruct)) {
            vs.push(("v", t.clone()));
        }
        all.push(Ty::Enum(vs.clone()));
        all.push(Ty::Seq(Box::new(Ty::Enum(vs)), Lay::Fix(3), Form::Seq));
    }
    // recursive ones
    all.push(Ty::Struct(vec![("value", leaf(schema!(i32)), false), ("next", Ty::Opt(Box::new(Ty::Up(0))), true)]));
    all.push(Ty::Enum(vec![("L", leaf(schema!(unit))), ("N", Ty::Struct(vec![("a", Ty::Up(0), false), ("b", Ty::Newtype(Box::new(Ty::Up(0))), false)])), ("T", Ty::Tup(vec![Ty::Up(0), Ty::Up(1)], Form::TupleStruct))]));
    all.push(Ty::Map(Box::new(leaf(schema!(str))), Box::new(Ty::Opt(Box::new(Ty::Up(0))))));
    all
}

pub fn c12(ctl: &mut Ctl) -> Res {
    let mut n = 0u64;
    for t in fixed() {
        n += 1;
        if !ctl.want(n) {
            continue;
        }
        let s = schema_of(&t, 0);
        for k in 0..6 {
            let mut r = Rng::new(ctl.seed, n * 100 + k);
            if let Some(v) = value_for(&mut r, &s) {
                one(ctl, n, &t, &s, &v, MANNERS[k as usize % 3])?;
            }
        }
    }
    concrete(ctl, &mut n)?;
    let mut i = 0;
    while let Some(n) = ctl.next_case(10_000, &mut i) {
        let mut r = Rng::new(ctl.seed, n);
        let fuel = 1 + r.below(5);
        let t = gen_ty(&mut r, fuel, &mut vec![], 0);
        let s = schema_of(&t, 0);
        for _ in 0..3 {
            if let Some(v) = value_for(&mut r, &s) {
                let m = *r.pick(&MANNERS);
                one(ctl, n, &t, &s, &v, m)?;
            }
        }
    }
    Ok(())
}

fn one(ctl: &mut Ctl, n: u64, t: &Ty, s: &Schema, v: &RV, manner: Manner) -> Res {
    ctl.eval(&(t, format!("{:?}", v)));
    ctl.inflight(&format!("case {}: value {:?} of {:?}\n{}", n, v, t, n));
    ctl.sample(|| format!("value {:?} of serde type {:?} under {}", v, t, short(s)));
    match check(t, s, v, manner) {
        Ok(()) => Ok(()),
        Err(e) => found(n, e),
    }
}

/// A value of a Rust type with its own serde implementation.
fn rust<X>(ctl: &mut Ctl, n: &mut u64, s: Schema, v: X, rv: RV) -> Res
where
    X: Serialize + de::DeserializeOwned + PartialEq + std::fmt::Debug,
{
    *n += 1;
    if !ctl.want(*n) {
        return Ok(());
    }
    let n = *n;
    ctl.eval(&(format!("{:?}", v), std::any::type_name::<X>()));
    let want = encode(&s, &rv).expect("conforms");
    let about = || format!("{:?} of type {} under {}", v, std::any::type_name::<X>(), short(&s));
    for m in MANNERS {
        let (r, got, fin) = ser(&s, &v, m);
        if r.is_err() || got != want || !fin {
            return found(n, format!("serializing {}: {:?}, wrote {} where FORMAT.txt says {}, finished is {}", about(), r, hex(&got), hex(&want), fin));
        }
        let mut data = want.clone();
        data.extend([0, 1, 0xff]);
        let (r, k, fin) = de(&s, &data, m, |d| X::deserialize(d));
        match r {
            Ok(x) if x == v && k == want.len() && fin => (),
            r => return found(n, format!("deserializing {} from {}: {:?}, read {} of {} bytes, finished is {}", about(), hex(&data), r, k, want.len(), fin)),
        }
        let (r, k, fin) = de(&s, &data, m, |d| <IgnoredAny as serde::Deserialize>::deserialize(d));
        // an enum cannot be ignored by serde's own IgnoredAny unless it is newtype-like, which every variant is here
        if r.is_err() || k != want.len() || !fin {
            return found(n, format!("ignoring {} in {}: {:?}, read {} of {} bytes, finished is {}", about(), hex(&data), r.err(), k, want.len(), fin));
        }
    }
    Ok(())
}

mod plain {
    use serde::{Deserialize, Serialize};
    use std::collections::BTreeMap;
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    pub struct Empty {}
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    pub struct EmptyTuple();
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    pub struct Unit;
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    pub struct New(pub Vec<u8>);
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    pub struct Two(pub u8, pub String);
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    pub struct Skips {
        #[serde(skip_serializing_if = "Option::is_none", default)]
        pub a: Option<u8>,
        pub b: u16,
        #[serde(skip_serializing_if = "Option::is_none", default)]
        pub c: Option<String>,
    }
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    pub enum E {
        U,
        N(Box<E>),
        T(u8, Option<i64>),
        S { x: BTreeMap<u8, Vec<()>>, y: Empty },
        Z(),
        W {},
        #[serde(rename = "other name")]
        R(char),
        K {
            #[serde(skip_serializing_if = "Option::is_none", default)]
            k: Option<bool>,
        },
    }
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    pub struct All {
        pub a: Empty,
        pub b: EmptyTuple,
        pub c: Unit,
        pub d: New,
        pub e: Two,
        pub f: Skips,
        pub g: Vec<E>,
        pub h: [u32; 3],
        pub i: [u8; 0],
        pub j: (),
        pub k: Option<Option<()>>,
        pub l: BTreeMap<String, BTreeMap<i8, ()>>,
    }
}

fn concrete(ctl: &mut Ctl, n: &mut u64) -> Res {
    use plain::*;
    use std::net::*;
    let e = schema!(enum {
        U(unit), N(recurse(1)), T(tuple { (u8), (option(i64)) }), S(struct { (x: seq(varlen)(tuple { (u8), (seq(varlen)(unit)) })), (y: struct {}) }),
        Z(tuple {}), W(struct {}), other(char), K(struct { (k: option(bool)) }),
    });
    let e = match e {
        Schema::Enum(mut vs) => {
            vs[6].name = "other name".into();
            Schema::Enum(vs)
        }
        _ => unreachable!(),
    };
    let skips = schema!(struct { (a: option(u8)), (b: u16), (c: option(str)) });
    fn b<T>(x: T) -> Box<T> {
        Box::new(x)
    }
    let some = |v: RV| RV::Some(Box::new(v));
    rust(ctl, n, schema!(struct {}), Empty {}, RV::Struct(vec![]))?;
    rust(ctl, n, schema!(tuple {}), EmptyTuple(), RV::Tuple(vec![]))?;
    rust(ctl, n, schema!(unit), EmptyTuple(), RV::Unit)?;
    rust(ctl, n, schema!(seq(0)(u8)), EmptyTuple(), RV::Seq(vec![]))?;
    rust(ctl, n, schema!(unit), Unit, RV::Unit)?;
    rust(ctl, n, schema!(seq(varlen)(u8)), New(vec![]), RV::Seq(vec![]))?;
    rust(ctl, n, schema!(seq(2)(u8)), New(vec![1, 2]), RV::Seq(vec![RV::U8(1), RV::U8(2)]))?;
    rust(ctl, n, schema!(tuple { (u8), (u8) }), New(vec![1, 2]), RV::Tuple(vec![RV::U8(1), RV::U8(2)]))?;
    for (a, c) in [(None, None), (Some(1), None), (None, Some("x".to_string())), (Some(0), Some(String::new()))] {
        let rv = RV::Struct(vec![a.map(|x| some(RV::U8(x))).unwrap_or(RV::None), RV::U16(7), c.clone().map(|x| some(RV::Str(x))).unwrap_or(RV::None)]);
        rust(ctl, n, skips.clone(), Skips { a, b: 7, c }, rv)?;
    }
    let es = vec![
        (E::U, RV::Enum(0, b(RV::Unit))),
        (E::N(b(E::N(b(E::T(1, None))))), RV::Enum(1, b(RV::Enum(1, b(RV::Enum(2, b(RV::Tuple(vec![RV::U8(1), RV::None])))))))),
        (E::T(3, Some(-1)), RV::Enum(2, b(RV::Tuple(vec![RV::U8(3), some(RV::I64(-1))])))),
        (E::S { x: Default::default(), y: Empty {} }, RV::Enum(3, b(RV::Struct(vec![RV::Seq(vec![]), RV::Struct(vec![])])))),
        (
            E::S { x: [(1, vec![]), (2, vec![(), ()])].into_iter().collect(), y: Empty {} },
            RV::Enum(
                3,
                b(RV::Struct(vec![
                    RV::Seq(vec![RV::Tuple(vec![RV::U8(1), RV::Seq(vec![])]), RV::Tuple(vec![RV::U8(2), RV::Seq(vec![RV::Unit, RV::Unit])])]),
                    RV::Struct(vec![]),
                ])),
            ),
        ),
        (E::Z(), RV::Enum(4, b(RV::Tuple(vec![])))),
        (E::W {}, RV::Enum(5, b(RV::Struct(vec![])))),
        (E::R('é'), RV::Enum(6, b(RV::Char('é')))),
        (E::K { k: None }, RV::Enum(7, b(RV::Struct(vec![RV::None])))),
        (E::K { k: Some(true) }, RV::Enum(7, b(RV::Struct(vec![some(RV::Bool(true))])))),
    ];
    for (x, v) in &es {
        rust(ctl, n, e.clone(), x.clone(), v.clone())?;
        rust(ctl, n, Schema::Option(b(e.clone())), Some(x.clone()), some(v.clone()))?;
    }
    let ein = |up: Schema| up;
    let all = Schema::Struct(
        vec![
            ("a", schema!(struct {})),
            ("b", schema!(tuple {})),
            ("c", schema!(unit)),
            ("d", schema!(seq(varlen)(u8))),
            ("e", schema!(tuple { (u8), (str) })),
            ("f", skips.clone()),
            ("g", Schema::Seq(SeqSchema { len: None, inner: b(ein(e.clone())) })),
            ("h", schema!(seq(3)(u32))),
            ("i", schema!(seq(0)(u8))),
            ("j", schema!(unit)),
            ("k", schema!(option(option(unit)))),
            ("l", schema!(seq(varlen)(tuple { (str), (seq(varlen)(tuple { (i8), (unit) })) }))),
        ]
        .into_iter()
        .map(|(n, s)| StructSchemaField { name: n.into(), inner: s })
        .collect(),
    );
    rust(
        ctl,
        n,
        all,
        All {
            a: Empty {},
            b: EmptyTuple(),
            c: Unit,
            d: New(vec![9]),
            e: Two(1, "z".into()),
            f: Skips { a: None, b: 1, c: None },
            g: es.iter().map(|x| x.0.clone()).collect(),
            h: [1, 200, 70000],
            i: [],
            j: (),
            k: Some(None),
            l: [("q".to_string(), [(-1i8, ())].into_iter().collect()), ("r".to_string(), Default::default())].into_iter().collect(),
        },
        RV::Struct(vec![
            RV::Struct(vec![]),
            RV::Tuple(vec![]),
            RV::Unit,
            RV::Seq(vec![RV::U8(9)]),
            RV::Tuple(vec![RV::U8(1), RV::Str("z".into())]),
            RV::Struct(vec![RV::None, RV::U16(1), RV::None]),
            RV::Seq(es.iter().map(|x| x.1.clone()).collect()),
            RV::Seq(vec![RV::U32(1), RV::U32(200), RV::U32(70000)]),
            RV::Seq(vec![]),
            RV::Unit,
            some(RV::None),
            RV::Seq(vec![
                RV::Tuple(vec![RV::Str("q".into()), RV::Seq(vec![RV::Tuple(vec![RV::I8(-1), RV::Unit])])]),
                RV::Tuple(vec![RV::Str("r".into()), RV::Seq(vec![])]),
            ]),
        ]),
    )?;
    // types of std serialized in the compact form
    let oct = |b: &[u8]| RV::Seq(b.iter().map(|x| RV::U8(*x)).collect());
    let v4 = Ipv4Addr::new(127, 0, 200, 1);
    let v6 = Ipv6Addr::new(1, 2, 3, 0xffff, 5, 6, 7, 8);
    rust(ctl, n, schema!(seq(4)(u8)), v4, oct(&v4.octets()))?;
    rust(ctl, n, schema!(tuple { (u8), (u8), (u8), (u8) }), v4, RV::Tuple(v4.octets().iter().map(|x| RV::U8(*x)).collect()))?;
    rust(ctl, n, schema!(seq(16)(u8)), v6, oct(&v6.octets()))?;
    let ip = schema!(enum { V4(seq(4)(u8)), V6(seq(16)(u8)) });
    rust(ctl, n, ip.clone(), IpAddr::V4(v4), RV::Enum(0, b(oct(&v4.octets()))))?;
    rust(ctl, n, ip.clone(), IpAddr::V6(v6), RV::Enum(1, b(oct(&v6.octets()))))?;
    rust(ctl, n, schema!(tuple { (seq(4)(u8)), (u16) }), SocketAddrV4::new(v4, 443), RV::Tuple(vec![oct(&v4.octets()), RV::U16(443)]))?;
    rust(ctl, n, schema!(struct { (secs: u64), (nanos: u32) }), std::time::Duration::new(5, 300), RV::Struct(vec![RV::U64(5), RV::U32(300)]))?;
    rust(ctl, n, schema!(enum { Ok(u8), Err(str) }), Ok::<u8, String>(3), RV::Enum(0, b(RV::U8(3))))?;
    rust(ctl, n, schema!(enum { Ok(u8), Err(str) }), Err::<u8, String>("e".into()), RV::Enum(1, b(RV::Str("e".into()))))?;
    rust(ctl, n, schema!(unit), std::marker::PhantomData::<u8>, RV::Unit)?;
    rust(ctl, n, schema!(u8), std::num::NonZeroU8::new(3).unwrap(), RV::U8(3))?;
    rust(ctl, n, schema!(i128), std::num::Wrapping(-3i128), RV::I128(-3))?;
    rust(ctl, n, schema!(bytes), std::ffi::CString::new("ab").unwrap(), RV::Bytes(vec![97, 98]))?;
    rust(ctl, n, schema!(str), std::path::PathBuf::from("a/b"), RV::Str("a/b".into()))?;
    rust(ctl, n, schema!(u8), std::cell::Cell::new(4u8), RV::U8(4))?;
    Ok(())
}
