//! Reference implementation of FORMAT.txt, written from its text and independent of the crate's
//! coding code: values, their encoding under a schema, and decoding of a byte stream.
use crate::rng::Rng;
use binschema::error::ErrorKind;
use binschema::{schema, EnumSchemaVariant, ScalarType, Schema, SeqSchema, StructSchemaField};

#[derive(Clone, Debug, PartialEq)]
pub enum RV {
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    F32(u32),
    F64(u64),
    Char(char),
    Bool(bool),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<RV>),
    Seq(Vec<RV>),
    Tuple(Vec<RV>),
    Struct(Vec<RV>),
    Enum(usize, Box<RV>),
}

pub type Ctx<'a> = Vec<&'a Schema>;

/// The schema a (possibly recurse) schema stands for, and the schemas it lies within. None if illegal.
pub fn resolve<'a>(s: &'a Schema, ctx: &Ctx<'a>) -> Option<(&'a Schema, Ctx<'a>)> {
    let mut s = s;
    let mut ctx = ctx.clone();
    while let Schema::Recurse(n) = s {
        if *n == 0 || *n > ctx.len() {
            return None;
        }
        let i = ctx.len() - n;
        s = ctx[i];
        ctx.truncate(i);
    }
    Some((s, ctx))
}

pub fn inside<'a>(s: &'a Schema, ctx: &Ctx<'a>) -> Ctx<'a> {
    let mut c = ctx.clone();
    c.push(s);
    c
}

pub fn uint(mut n: u128, out: &mut Vec<u8>) {
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            out.push(b + 128);
        } else {
            out.push(b);
            return;
        }
    }
}

pub fn sint(n: i128, out: &mut Vec<u8>) {
    let neg = n < 0;
    let m: u128 = if neg { (-(n + 1)) as u128 } else { n as u128 };
    let b = (m % 64) as u8 + if neg { 64 } else { 0 };
    if m / 64 > 0 {
        out.push(b + 128);
        uint(m / 64, out);
    } else {
        out.push(b);
    }
}

/// Bytes needed to hold every ordinal of an enum with n variants.
pub fn ord_len(n: usize) -> usize {
    let mut k = 0;
    let mut m = n - 1;
    while m > 0 {
        m /= 256;
        k += 1;
    }
    k
}

pub fn ordinal(mut ord: usize, n: usize, out: &mut Vec<u8>) {
    for _ in 0..ord_len(n) {
        out.push((ord % 256) as u8);
        ord /= 256;
    }
}

/// FORMAT.txt encoding; Err if the value does not conform to the schema.
pub fn enc<'a>(s: &'a Schema, ctx: &Ctx<'a>, v: &RV, out: &mut Vec<u8>) -> Result<(), ()> {
    let (s, ctx) = resolve(s, ctx).ok_or(())?;
    use ScalarType as T;
    match (s, v) {
        (Schema::Scalar(T::U8), RV::U8(x)) => out.push(*x),
        (Schema::Scalar(T::I8), RV::I8(x)) => out.push(*x as u8),
        (Schema::Scalar(T::U16), RV::U16(x)) => out.extend([(*x % 256) as u8, (*x / 256) as u8]),
        (Schema::Scalar(T::I16), RV::I16(x)) => out.extend([(*x as u16 % 256) as u8, (*x as u16 / 256) as u8]),
        (Schema::Scalar(T::U32), RV::U32(x)) => uint(*x as u128, out),
        (Schema::Scalar(T::U64), RV::U64(x)) => uint(*x as u128, out),
        (Schema::Scalar(T::U128), RV::U128(x)) => uint(*x, out),
        (Schema::Scalar(T::I32), RV::I32(x)) => sint(*x as i128, out),
        (Schema::Scalar(T::I64), RV::I64(x)) => sint(*x as i128, out),
        (Schema::Scalar(T::I128), RV::I128(x)) => sint(*x, out),
        (Schema::Scalar(T::F32), RV::F32(x)) => (0..4).for_each(|i| out.push((*x >> (8 * i)) as u8)),
        (Schema::Scalar(T::F64), RV::F64(x)) => (0..8).for_each(|i| out.push((*x >> (8 * i)) as u8)),
        (Schema::Scalar(T::Char), RV::Char(c)) => uint(*c as u32 as u128, out),
        (Schema::Scalar(T::Bool), RV::Bool(b)) => out.push(if *b { 1 } else { 0 }),
        (Schema::Str, RV::Str(x)) => {
            uint(x.len() as u128, out);
            out.extend(x.as_bytes());
        }
        (Schema::Bytes, RV::Bytes(x)) => {
            uint(x.len() as u128, out);
            out.extend(x);
        }
        (Schema::Unit, RV::Unit) => (),
        (Schema::Option(_), RV::None) => out.push(0),
        (Schema::Option(i), RV::Some(x)) => {
            out.push(1);
            enc(i, &inside(s, &ctx), x, out)?;
        }
        (Schema::Seq(q), RV::Seq(xs)) => {
            match q.len {
                Some(n) if n != xs.len() => return Err(()),
                Some(_) => (),
                None => uint(xs.len() as u128, out),
            }
            let c = inside(s, &ctx);
            for x in xs {
                enc(&q.inner, &c, x, out)?;
            }
        }
        (Schema::Tuple(ss), RV::Tuple(xs)) => {
            if ss.len() != xs.len() {
                return Err(());
            }
            let c = inside(s, &ctx);
            for (i, x) in ss.iter().zip(xs) {
                enc(i, &c, x, out)?;
            }
        }
        (Schema::Struct(fs), RV::Struct(xs)) => {
            if fs.len() != xs.len() {
                return Err(());
            }
            let c = inside(s, &ctx);
            for (f, x) in fs.iter().zip(xs) {
                enc(&f.inner, &c, x, out)?;
            }
        }
        (Schema::Enum(vs), RV::Enum(o, x)) => {
            if *o >= vs.len() {
                return Err(());
            }
            ordinal(*o, vs.len(), out);
            enc(&vs[*o].inner, &inside(s, &ctx), x, out)?;
        }
        _ => return Err(()),
    }
    Ok(())
}

pub fn encode(s: &Schema, v: &RV) -> Result<Vec<u8>, ()> {
    let mut out = Vec::new();
    enc(s, &vec![], v, &mut out)?;
    Ok(out)
}

/// Outcome of reading one primitive from `b` at `*p`. On Err the position tells how far a reader may have gone.
pub struct Src<'b> {
    pub b: &'b [u8],
    pub p: usize,
}

impl<'b> Src<'b> {
    pub fn take(&mut self, n: usize) -> Result<&'b [u8], ErrorKind> {
        if self.b.len() - self.p < n {
            self.p = self.b.len();
            return Err(ErrorKind::Io);
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    pub fn byte(&mut self) -> Result<u8, ErrorKind> {
        Ok(self.take(1)?[0])
    }
    /// Any var-len uint below 2^128: the 7-bit groups, least significant first.
    pub fn uint(&mut self) -> Result<u128, ErrorKind> {
        let mut n: u128 = 0;
        let mut weight: Option<u128> = Some(1);
        let mut count = 0;
        loop {
            if count == 19 {
                return Err(ErrorKind::MalformedData);
            }
            let b = self.byte()?;
            count += 1;
            let d = (b % 128) as u128;
            if d > 0 {
                let t = weight.and_then(|w| w.checked_mul(d)).ok_or(ErrorKind::MalformedData)?;
                n = n.checked_add(t).ok_or(ErrorKind::MalformedData)?;
            }
            weight = weight.and_then(|w| w.checked_mul(128));
            if b < 128 {
                return Ok(n);
            }
        }
    }
    pub fn sint(&mut self) -> Result<i128, ErrorKind> {
        let b = self.byte()?;
        let neg = (b / 64) % 2 == 1;
        let mut n: i128 = (b % 64) as i128;
        let mut weight: Option<i128> = Some(64);
        let mut more = b >= 128;
        let mut count = 1;
        while more {
            if count == 19 {
                return Err(ErrorKind::MalformedData);
            }
            let b = self.byte()?;
            count += 1;
            let d = (b % 128) as i128;
            if d > 0 {
                let t = weight.and_then(|w| w.checked_mul(d)).ok_or(ErrorKind::MalformedData)?;
                n = n.checked_add(t).ok_or(ErrorKind::MalformedData)?;
            }
            weight = weight.and_then(|w| w.checked_mul(128));
            more = b >= 128;
        }
        Ok(if neg { -n - 1 } else { n })
    }
    pub fn len(&mut self) -> Result<usize, ErrorKind> {
        usize::try_from(self.uint()?).map_err(|_| ErrorKind::PlatformLimits)
    }
    pub fn ord(&mut self, n: usize) -> Result<usize, ErrorKind> {
        if n == 0 {
            return Err(ErrorKind::MalformedData);
        }
        let k = ord_len(n);
        let b = self.take(k)?;
        let mut o: u64 = 0;
        for i in (0..k).rev() {
            o = o * 256 + b[i] as u64;
        }
        if o >= n as u64 {
            return Err(ErrorKind::MalformedData);
        }
        Ok(o as usize)
    }
    /// A leaf of schema `s`.
    pub fn leaf(&mut self, s: &Schema) -> Result<RV, ErrorKind> {
        use ErrorKind::MalformedData as Bad;
        use ScalarType as T;
        Ok(match s {
            Schema::Scalar(t) => match t {
                T::U8 => RV::U8(self.byte()?),
                T::I8 => RV::I8(self.byte()? as i8),
                T::U16 => RV::U16(self.take(2)?.iter().rev().fold(0u16, |a, b| a * 256 + *b as u16)),
                T::I16 => RV::I16(self.take(2)?.iter().rev().fold(0u16, |a, b| a * 256 + *b as u16) as i16),
                T::F32 => RV::F32(self.take(4)?.iter().rev().fold(0u32, |a, b| a * 256 + *b as u32)),
                T::F64 => RV::F64(self.take(8)?.iter().rev().fold(0u64, |a, b| a * 256 + *b as u64)),
                T::U32 => RV::U32(u32::try_from(self.uint()?).map_err(|_| Bad)?),
                T::U64 => RV::U64(u64::try_from(self.uint()?).map_err(|_| Bad)?),
                T::U128 => RV::U128(self.uint()?),
                T::I32 => RV::I32(i32::try_from(self.sint()?).map_err(|_| Bad)?),
                T::I64 => RV::I64(i64::try_from(self.sint()?).map_err(|_| Bad)?),
                T::I128 => RV::I128(self.sint()?),
                T::Char => RV::Char(u32::try_from(self.uint()?).ok().and_then(char::from_u32).ok_or(Bad)?),
                T::Bool => RV::Bool(match self.byte()? {
                    0 => false,
                    1 => true,
                    _ => return Err(Bad),
                }),
            },
            Schema::Str => {
                let n = self.len()?;
                RV::Str(std::str::from_utf8(self.take(n)?).map_err(|_| Bad)?.to_string())
            }
            Schema::Bytes => {
                let n = self.len()?;
                RV::Bytes(self.take(n)?.to_vec())
            }
            Schema::Unit => RV::Unit,
            _ => panic!("not a leaf"),
        })
    }
}

pub fn dec<'a>(s: &'a Schema, ctx: &Ctx<'a>, src: &mut Src, fuel: &mut usize) -> Result<RV, ErrorKind> {
    if *fuel == 0 {
        return Err(ErrorKind::Other);
    }
    *fuel -= 1;
    let (s, ctx) = resolve(s, ctx).ok_or(ErrorKind::IllegalSchema)?;
    let c = inside(s, &ctx);
    Ok(match s {
        Schema::Option(i) => match src.byte()? {
            0 => RV::None,
            1 => RV::Some(Box::new(dec(i, &c, src, fuel)?)),
            _ => return Err(ErrorKind::MalformedData),
        },
        Schema::Seq(q) => {
            let n = match q.len {
                Some(n) => n,
                None => src.len()?,
            };
            let mut xs = Vec::new();
            for _ in 0..n {
                xs.push(dec(&q.inner, &c, src, fuel)?);
            }
            RV::Seq(xs)
        }
        Schema::Tuple(ss) => {
            let mut xs = Vec::new();
            for i in ss {
                xs.push(dec(i, &c, src, fuel)?);
            }
            RV::Tuple(xs)
        }
        Schema::Struct(fs) => {
            let mut xs = Vec::new();
            for f in fs {
                xs.push(dec(&f.inner, &c, src, fuel)?);
            }
            RV::Struct(xs)
        }
        Schema::Enum(vs) => {
            let o = src.ord(vs.len())?;
            RV::Enum(o, Box::new(dec(&vs[o].inner, &c, src, fuel)?))
        }
        Schema::Recurse(_) => unreachable!(),
        leaf => src.leaf(leaf)?,
    })
}

// ---- generation ----

pub fn scalars() -> Vec<Schema> {
    use ScalarType::*;
    [U8, U16, U32, U64, U128, I8, I16, I32, I64, I128, F32, F64, Char, Bool].into_iter().map(Schema::Scalar).collect()
}

pub fn leaves() -> Vec<Schema> {
    let mut v = scalars();
    v.extend([Schema::Str, Schema::Bytes, Schema::Unit]);
    v
}

pub const NAMES: &[&str] = &["a", "b", "c", "value", "next", "", "é", "Left", "Right", "r#type"];

#[derive(Clone, Copy)]
pub struct GenOpts {
    pub recurse: bool,
    pub illegal: bool,
    pub uninhabited: bool,
    pub big_enums: bool,
}

pub fn gen_schema(r: &mut Rng, depth: usize, above: usize, o: GenOpts) -> Schema {
    if o.recurse && above > 0 && r.chance(1, if depth == 0 { 3 } else { 6 }) {
        return Schema::Recurse(1 + r.below(above));
    }
    if o.illegal && r.chance(1, 14) {
        return Schema::Recurse(*r.pick(&[0, above + 1, above + 2, usize::MAX]));
    }
    if depth == 0 || r.chance(1, 5) {
        return r.pick(&leaves()).clone();
    }
    let sub = |r: &mut Rng| gen_schema(r, depth - 1, above + 1, o);
    match r.below(6) {
        0 => Schema::Option(Box::new(sub(r))),
        1 => Schema::Seq(SeqSchema { len: None, inner: Box::new(sub(r)) }),
        2 => Schema::Seq(SeqSchema { len: Some(r.below(4)), inner: Box::new(sub(r)) }),
        3 => {
            let n = r.below(4);
            Schema::Tuple((0..n).map(|_| sub(r)).collect())
        }
        4 => {
            let n = r.below(4);
            Schema::Struct((0..n).map(|_| StructSchemaField { name: r.pick(NAMES).to_string(), inner: sub(r) }).collect())
        }
        _ => {
            let n = if o.big_enums && r.chance(1, 8) {
                *r.pick(&[255, 256, 257])
            } else if o.uninhabited && r.chance(1, 12) {
                0
            } else {
                1 + r.below(4)
            };
            let mut vs: Vec<EnumSchemaVariant> = Vec::new();
            for i in 0..n {
                let inner = if i < 4 { sub(r) } else { Schema::Unit };
                vs.push(EnumSchemaVariant { name: format!("{}{}", r.pick(NAMES), if i < 4 { "".into() } else { i.to_string() }), inner });
            }
            Schema::Enum(vs)
        }
    }
}

/// Some schemas worth visiting whatever the seed.
pub fn fixed_schemas() -> Vec<Schema> {
    let mut v = leaves();
    v.extend([
        schema!(option(unit)),
        schema!(option(option(u8))),
        schema!(option(option(option(str)))),
        schema!(seq(varlen)(unit)),
        schema!(seq(varlen)(u8)),
        schema!(seq(0)(u8)),
        schema!(seq(3)(u8)),
        schema!(seq(varlen)(seq(varlen)(u16))),
        schema!(seq(varlen)(option(u32))),
        schema!(tuple {}),
        schema!(tuple { (u8) }),
        schema!(tuple { (u8), (str), (bool) }),
        schema!(tuple { (tuple {}), (option(tuple {})) }),
        schema!(struct {}),
        schema!(struct { (a: u8), (b: option(u8)) }),
        schema!(struct { (a: struct { (b: unit) }), (a: u8) }),
        schema!(enum { A(unit) }),
        schema!(enum { A(unit), B(u8) }),
        schema!(enum { A(enum { C(unit), D(str) }), B(option(enum { E(u8) })) }),
        schema!(option(enum { A(option(enum { B(option(u8)) })) })),
        schema!(struct { (value: i32), (next: option(recurse(2))) }),
        schema!(enum { Branch(struct { (left: recurse(2)), (right: recurse(2)) }), Leaf(i32) }),
        schema!(seq(varlen)(recurse(1))),
        schema!(option(recurse(1))),
        schema!(tuple { (seq(varlen)(recurse(2))), (option(recurse(2))) }),
        schema!(struct { (a: option(struct { (b: option(recurse(2))), (c: option(recurse(4))), (d: u8) })), (e: str) }),
        schema!(enum { A(recurse(1)), B(unit) }),
        schema!(enum { A(seq(2)(recurse(2))), B(u8) }),
        schema!(seq(varlen)(tuple { (str), (recurse(2)) })),
        schema!(struct { (x: seq(varlen)(enum { P(recurse(3)), Q(option(recurse(3))), R(recurse(2)) })), (y: u8) }),
        schema!(option(option(recurse(1)))),
        schema!(option(option(recurse(2)))),
        schema!(struct { (a: seq(varlen)(struct { (b: seq(varlen)(recurse(4))), (c: option(recurse(3))) })) }),
    ]);
    v
}

pub fn illegal_schemas() -> Vec<Schema> {
    vec![
        schema!(recurse(0)),
        schema!(recurse(1)),
        schema!(recurse(5)),
        schema!(option(recurse(0))),
        schema!(option(recurse(2))),
        schema!(seq(varlen)(recurse(0))),
        schema!(seq(1)(recurse(2))),
        schema!(seq(2)(option(recurse(3)))),
        schema!(tuple { (u8), (recurse(2)) }),
        schema!(tuple { (u8), (recurse(0)) }),
        schema!(struct { (a: u8), (b: recurse(7)) }),
        schema!(struct { (a: option(recurse(3))), (b: u8) }),
        schema!(enum { A(recurse(0)), B(unit) }),
        schema!(enum { A(unit), B(recurse(2)) }),
        schema!(enum { A(u8), B(option(recurse(3))) }),
        schema!(struct { (a: option(struct { (b: option(recurse(5))), (c: option(recurse(2))) })) }),
        Schema::Option(Box::new(Schema::Recurse(usize::MAX))),
        schema!(struct { (x: option(recurse(2))), (y: option(struct { (z: recurse(4)) })) }),
    ]
}

/// A random conforming value, or None if none was found within the fuel.
pub fn gen_value<'a>(r: &mut Rng, s: &'a Schema, ctx: &Ctx<'a>, budget: &mut i64, fuel: &mut usize) -> Option<RV> {
    if *fuel == 0 {
        return None;
    }
    *fuel -= 1;
    *budget -= 1;
    let (s, ctx) = resolve(s, ctx)?;
    if ctx.len() > 150 {
        return None;
    }
    let c = inside(s, &ctx);
    use ScalarType as T;
    Some(match s {
        Schema::Scalar(t) => match t {
            T::U8 => RV::U8(r.int(8) as u8),
            T::U16 => RV::U16(r.int(16) as u16),
            T::U32 => RV::U32(r.int(32) as u32),
            T::U64 => RV::U64(r.int(64) as u64),
            T::U128 => RV::U128(r.int(128)),
            T::I8 => RV::I8(r.int(8) as i8),
            T::I16 => RV::I16(r.int(16) as i16),
            T::I32 => RV::I32(r.int(32) as i32),
            T::I64 => RV::I64(r.int(64) as i64),
            T::I128 => RV::I128(r.int(128) as i128),
            T::F32 => RV::F32(r.next() as u32),
            T::F64 => RV::F64(r.next()),
            T::Char => RV::Char(r.char()),
            T::Bool => RV::Bool(r.chance(1, 2)),
        },
        Schema::Str => RV::Str(r.string()),
        Schema::Bytes => RV::Bytes(r.bytes()),
        Schema::Unit => RV::Unit,
        Schema::Option(i) => {
            if *budget <= 0 || r.chance(1, 3) {
                RV::None
            } else {
                match gen_value(r, i, &c, budget, fuel) {
                    Some(v) => RV::Some(Box::new(v)),
                    None => RV::None,
                }
            }
        }
        Schema::Seq(q) => {
            let n = match q.len {
                Some(n) => n,
                None if *budget <= 0 => 0,
                None => r.below(4),
            };
            let mut xs = Vec::new();
            for _ in 0..n {
                match gen_value(r, &q.inner, &c, budget, fuel) {
                    Some(v) => xs.push(v),
                    None if q.len.is_none() => break,
                    None => return None,
                }
            }
            RV::Seq(xs)
        }
        Schema::Tuple(ss) => RV::Tuple(ss.iter().map(|i| gen_value(r, i, &c, budget, fuel)).collect::<Option<_>>()?),
        Schema::Struct(fs) => RV::Struct(fs.iter().map(|f| gen_value(r, &f.inner, &c, budget, fuel)).collect::<Option<_>>()?),
        Schema::Enum(vs) => {
            if vs.is_empty() {
                return None;
            }
            let k = r.below(vs.len());
            for j in 0..vs.len().min(6) {
                let o = (k + j) % vs.len();
                if let Some(v) = gen_value(r, &vs[o].inner, &c, budget, fuel) {
                    return Some(RV::Enum(o, Box::new(v)));
                }
            }
            return None;
        }
        Schema::Recurse(_) => unreachable!(),
    })
}

pub fn value_for(r: &mut Rng, s: &Schema) -> Option<RV> {
    let mut budget = 4 + r.below(30) as i64;
    gen_value(r, s, &vec![], &mut budget, &mut 3000)
}
