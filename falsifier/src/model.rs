//! Reference model of the coding API: what each call must do, given the calls made before it.
//! Written from the property statements and FORMAT.txt; frames remember the schemas that enclose
//! them in the schema tree, so that recurse is resolved by the tree itself.
use crate::refs::*;
use binschema::error::ErrorKind::{self, *};
use binschema::Schema;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Leaf(RV),
    StrInto,
    BytesInto,
    None,
    Some,
    Option,
    Fixed(usize),
    Var(usize),
    Elem,
    FinSeq,
    Tup,
    TupElem,
    FinTup,
    Struct,
    Field(String),
    FinStruct,
    Enum(usize, String),
    EnumD,
    Variant(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    Unit,
    Leaf(RV),
    Some(bool),
    Len(usize),
    Ord(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(Ret),
    Mild(ErrorKind),
    Fatal(Vec<ErrorKind>),
}

#[derive(Clone, Debug)]
pub enum St {
    Need,
    Auto,
    Seq { len: usize, next: usize },
    Tuple(usize),
    Struct(usize),
    EnumOrd(usize),
}

#[derive(Clone, Debug)]
pub struct Frame<'a> {
    pub s: &'a Schema,
    pub ctx: Ctx<'a>,
    pub st: St,
}

#[derive(Clone)]
pub struct Model<'a> {
    pub stack: Vec<Frame<'a>>,
    pub broken: bool,
}

pub fn is_leaf(s: &Schema) -> bool {
    matches!(s, Schema::Scalar(_) | Schema::Str | Schema::Bytes | Schema::Unit)
}

pub fn leaf_schema(v: &RV) -> Schema {
    use binschema::ScalarType as T;
    Schema::Scalar(match v {
        RV::U8(_) => T::U8,
        RV::U16(_) => T::U16,
        RV::U32(_) => T::U32,
        RV::U64(_) => T::U64,
        RV::U128(_) => T::U128,
        RV::I8(_) => T::I8,
        RV::I16(_) => T::I16,
        RV::I32(_) => T::I32,
        RV::I64(_) => T::I64,
        RV::I128(_) => T::I128,
        RV::F32(_) => T::F32,
        RV::F64(_) => T::F64,
        RV::Char(_) => T::Char,
        RV::Bool(_) => T::Bool,
        RV::Str(_) => return Schema::Str,
        RV::Bytes(_) => return Schema::Bytes,
        _ => return Schema::Unit,
    })
}

impl<'a> Model<'a> {
    pub fn new(s: &'a Schema) -> Self {
        Model { stack: vec![Frame { s, ctx: vec![], st: St::Need }], broken: false }
    }
    pub fn finished(&self) -> bool {
        self.stack.is_empty() && !self.broken
    }
    fn pop(&mut self) {
        self.stack.pop();
        while matches!(self.stack.last(), Some(Frame { st: St::Auto, .. })) {
            self.stack.pop();
        }
    }
    fn fatal(&mut self, k: ErrorKind) -> Out {
        self.broken = true;
        Out::Fatal(vec![k])
    }
    /// Reach the schema `s` directly inside the top frame's.
    fn push(&mut self, s: &'a Schema) -> Result<(), ErrorKind> {
        let t = self.stack.last().unwrap();
        let c = inside(t.s, &t.ctx);
        match resolve(s, &c) {
            Some((s, ctx)) => {
                self.stack.push(Frame { s, ctx, st: St::Need });
                Ok(())
            }
            None => {
                self.broken = true;
                Err(IllegalSchema)
            }
        }
    }
    fn refuse(&mut self) -> Out {
        match self.stack.last().unwrap() {
            Frame { st: St::Need, s: Schema::Recurse(_), .. } => self.fatal(IllegalSchema),
            Frame { st: St::Need, .. } => Out::Mild(SchemaNonConformance),
            _ => Out::Mild(ApiUsage),
        }
    }
    fn set(&mut self, st: St) {
        self.stack.last_mut().unwrap().st = st;
    }
    /// Result of need(): the schema, or the kind of the refusal.
    pub fn need(&self) -> Result<&'a Schema, ErrorKind> {
        match self.stack.last() {
            Some(Frame { s: Schema::Recurse(_), .. }) => Err(IllegalSchema),
            Some(Frame { s, st: St::Need, .. }) => Ok(s),
            _ => Err(ApiUsage),
        }
    }

    /// Calls that are the same for encoding and decoding and involve no bytes.
    fn common(&mut self, op: &Op) -> Option<Out> {
        if self.broken || self.stack.is_empty() {
            return Some(Out::Mild(ApiUsage));
        }
        let top = self.stack.last().unwrap().clone();
        let done = |m: &mut Self, r: Result<(), ErrorKind>| match r {
            Ok(()) => Out::Ok(Ret::Unit),
            Err(k) => m.fatal(k),
        };
        Some(match (op, &top.st, top.s) {
            (Op::Fixed(n), St::Need, Schema::Seq(q)) if q.len.is_some() => {
                if q.len == Some(*n) {
                    self.set(St::Seq { len: *n, next: 0 });
                    Out::Ok(Ret::Unit)
                } else {
                    Out::Mild(SchemaNonConformance)
                }
            }
            (Op::Elem, St::Seq { len, next }, Schema::Seq(q)) => {
                if next < len {
                    self.set(St::Seq { len: *len, next: next + 1 });
                    let r = self.push(&q.inner);
                    done(self, r)
                } else {
                    Out::Mild(ApiUsage)
                }
            }
            (Op::FinSeq, St::Seq { len, next }, _) => {
                if next == len {
                    self.pop();
                    Out::Ok(Ret::Unit)
                } else {
                    Out::Mild(ApiUsage)
                }
            }
            (Op::Tup, St::Need, Schema::Tuple(_)) => {
                self.set(St::Tuple(0));
                Out::Ok(Ret::Unit)
            }
            (Op::TupElem, St::Tuple(next), Schema::Tuple(ss)) => {
                if *next < ss.len() {
                    self.set(St::Tuple(next + 1));
                    let r = self.push(&ss[*next]);
                    done(self, r)
                } else {
                    Out::Mild(SchemaNonConformance)
                }
            }
            (Op::FinTup, St::Tuple(next), Schema::Tuple(ss)) => {
                if *next == ss.len() {
                    self.pop();
                    Out::Ok(Ret::Unit)
                } else {
                    Out::Mild(SchemaNonConformance)
                }
            }
            (Op::Struct, St::Need, Schema::Struct(_)) => {
                self.set(St::Struct(0));
                Out::Ok(Ret::Unit)
            }
            (Op::Field(name), St::Struct(next), Schema::Struct(fs)) => {
                if *next < fs.len() && fs[*next].name == *name {
                    self.set(St::Struct(next + 1));
                    let r = self.push(&fs[*next].inner);
                    done(self, r)
                } else {
                    Out::Mild(SchemaNonConformance)
                }
            }
            (Op::FinStruct, St::Struct(next), Schema::Struct(fs)) => {
                if *next == fs.len() {
                    self.pop();
                    Out::Ok(Ret::Unit)
                } else {
                    Out::Mild(SchemaNonConformance)
                }
            }
            (Op::Fixed(_) | Op::Elem | Op::FinSeq | Op::Tup | Op::TupElem | Op::FinTup | Op::Struct | Op::Field(_) | Op::FinStruct, _, _) => self.refuse(),
            _ => return None,
        })
    }

    /// An encoding call, the writer accepting at most `room` more bytes. Appends what it writes to `out`.
    pub fn encode(&mut self, op: &Op, out: &mut Vec<u8>, room: usize) -> Out {
        if let Some(o) = self.common(op) {
            return o;
        }
        let top = self.stack.last().unwrap().clone();
        let mut b = Vec::new();
        let mut illegal = false;
        match (op, &top.st, top.s) {
            (Op::Leaf(v), St::Need, s) if *s == leaf_schema(v) => {
                self.pop();
                enc(s, &vec![], v, &mut b).unwrap();
            }
            (Op::None, St::Need, Schema::Option(_)) => {
                b.push(0);
                self.pop();
            }
            (Op::Some, St::Need, Schema::Option(i)) => {
                b.push(1);
                self.set(St::Auto);
                illegal = self.push(i).is_err();
            }
            (Op::Var(n), St::Need, Schema::Seq(q)) if q.len.is_none() => {
                uint(*n as u128, &mut b);
                self.set(St::Seq { len: *n, next: 0 });
            }
            (Op::Enum(o, name), St::Need, Schema::Enum(vs)) => {
                if *o >= vs.len() || vs[*o].name != *name {
                    return Out::Mild(SchemaNonConformance);
                }
                ordinal(*o, vs.len(), &mut b);
                self.set(St::Auto);
                illegal = self.push(&vs[*o].inner).is_err();
            }
            _ => return self.refuse(),
        }
        let mut ks = vec![];
        if illegal {
            ks.push(IllegalSchema);
        }
        if b.len() > room {
            ks.push(Io);
        }
        if ks.is_empty() {
            out.extend(b);
            Out::Ok(Ret::Unit)
        } else {
            self.broken = true;
            Out::Fatal(ks)
        }
    }

    /// A decoding call reading from `src`.
    pub fn decode(&mut self, op: &Op, src: &mut Src) -> Out {
        if let Some(o) = self.common(op) {
            return o;
        }
        let top = self.stack.last().unwrap().clone();
        let want = match op {
            Op::Leaf(v) => Some(leaf_schema(v)),
            Op::StrInto => Some(Schema::Str),
            Op::BytesInto => Some(Schema::Bytes),
            _ => None,
        };
        match (op, &top.st, top.s) {
            (_, St::Need, s) if Some(s) == want.as_ref() => match src.leaf(s) {
                Ok(v) => {
                    self.pop();
                    Out::Ok(Ret::Leaf(v))
                }
                Err(k) => self.fatal(k),
            },
            (Op::Option, St::Need, Schema::Option(i)) => match src.byte() {
                Ok(0) => {
                    self.pop();
                    Out::Ok(Ret::Some(false))
                }
                Ok(1) => {
                    self.set(St::Auto);
                    match self.push(i) {
                        Ok(()) => Out::Ok(Ret::Some(true)),
                        Err(k) => self.fatal(k),
                    }
                }
                Ok(_) => self.fatal(MalformedData),
                Err(k) => self.fatal(k),
            },
            (Op::Var(_), St::Need, Schema::Seq(q)) if q.len.is_none() => match src.len() {
                Ok(n) => {
                    self.set(St::Seq { len: n, next: 0 });
                    Out::Ok(Ret::Len(n))
                }
                Err(k) => self.fatal(k),
            },
            (Op::EnumD, St::Need, Schema::Enum(vs)) => match src.ord(vs.len()) {
                Ok(o) => {
                    self.set(St::EnumOrd(o));
                    Out::Ok(Ret::Ord(o))
                }
                Err(k) => self.fatal(k),
            },
            (Op::Variant(name), St::EnumOrd(o), Schema::Enum(vs)) => {
                if vs[*o].name == *name {
                    self.set(St::Auto);
                    match self.push(&vs[*o].inner) {
                        Ok(()) => Out::Ok(Ret::Unit),
                        Err(k) => self.fatal(k),
                    }
                } else {
                    Out::Mild(SchemaNonConformance)
                }
            }
            _ => self.refuse(),
        }
    }
}

/// The encoding calls that encode `v`.
pub fn enc_ops<'a>(s: &'a Schema, ctx: &Ctx<'a>, v: &RV, out: &mut Vec<Op>) {
    let (s, ctx) = match resolve(s, ctx) {
        Some(x) => x,
        None => return,
    };
    let c = inside(s, &ctx);
    match (s, v) {
        (Schema::Option(_), RV::None) => out.push(Op::None),
        (Schema::Option(i), RV::Some(x)) => {
            out.push(Op::Some);
            enc_ops(i, &c, x, out);
        }
        (Schema::Seq(q), RV::Seq(xs)) => {
            out.push(if q.len.is_some() { Op::Fixed(xs.len()) } else { Op::Var(xs.len()) });
            for x in xs {
                out.push(Op::Elem);
                enc_ops(&q.inner, &c, x, out);
            }
            out.push(Op::FinSeq);
        }
        (Schema::Tuple(ss), RV::Tuple(xs)) => {
            out.push(Op::Tup);
            for (i, x) in ss.iter().zip(xs) {
                out.push(Op::TupElem);
                enc_ops(i, &c, x, out);
            }
            out.push(Op::FinTup);
        }
        (Schema::Struct(fs), RV::Struct(xs)) => {
            out.push(Op::Struct);
            for (f, x) in fs.iter().zip(xs) {
                out.push(Op::Field(f.name.clone()));
                enc_ops(&f.inner, &c, x, out);
            }
            out.push(Op::FinStruct);
        }
        (Schema::Enum(vs), RV::Enum(o, x)) => {
            out.push(Op::Enum(*o, vs[*o].name.clone()));
            enc_ops(&vs[*o].inner, &c, x, out);
        }
        _ => out.push(Op::Leaf(v.clone())),
    }
}

/// The decoding calls for the encoding calls `ops`.
pub fn to_dec(ops: &[Op]) -> Vec<Op> {
    let mut v = Vec::new();
    for o in ops {
        match o {
            Op::None | Op::Some => v.push(Op::Option),
            Op::Enum(_, n) => {
                v.push(Op::EnumD);
                v.push(Op::Variant(n.clone()));
            }
            o => v.push(o.clone()),
        }
    }
    v
}

fn collect(s: &Schema, names: &mut Vec<String>, variants: &mut Vec<(usize, String)>, lens: &mut Vec<usize>) {
    match s {
        Schema::Option(i) => collect(i, names, variants, lens),
        Schema::Seq(q) => {
            if let Some(n) = q.len {
                lens.push(n);
            }
            collect(&q.inner, names, variants, lens)
        }
        Schema::Tuple(ss) => ss.iter().for_each(|i| collect(i, names, variants, lens)),
        Schema::Struct(fs) => fs.iter().for_each(|f| {
            names.push(f.name.clone());
            collect(&f.inner, names, variants, lens)
        }),
        Schema::Enum(vs) => vs.iter().enumerate().for_each(|(i, v)| {
            if i < 5 {
                variants.push((i, v.name.clone()));
                collect(&v.inner, names, variants, lens)
            }
        }),
        _ => (),
    }
}

/// Every kind of call, with arguments that occur in the schema and some that do not.
/// Names that are nearly `n`.
fn near(n: &str) -> Vec<String> {
    let c: Vec<char> = n.chars().collect();
    let mut v = vec![format!("{} ", n), format!(" {}", n)];
    let swap = |c: &char| if c.is_uppercase() { c.to_lowercase().next().unwrap() } else { c.to_uppercase().next().unwrap() };
    v.push(c.iter().map(swap).collect());
    if !c.is_empty() {
        v.push(c[..c.len() - 1].iter().collect());
        v.push(c[1..].iter().collect());
        let mut d = c.clone();
        *d.last_mut().unwrap() = char::from_u32(d[d.len() - 1] as u32 ^ 1).unwrap_or('~');
        v.push(d.iter().collect());
        let mut d = c.clone();
        d[0] = char::from_u32(d[0] as u32 ^ 2).unwrap_or('~');
        v.push(d.iter().collect());
    }
    v.retain(|x| x != n);
    v
}

pub fn pool(s: &Schema, enc: bool) -> Vec<Op> {
    let (mut names, mut variants, mut lens) = (vec![], vec![], vec![0, 1, 2, 3, usize::MAX]);
    collect(s, &mut names, &mut variants, &mut lens);
    names.sort();
    names.dedup();
    variants.sort();
    variants.dedup();
    lens.sort();
    lens.dedup();
    let mut p: Vec<Op> = [
        RV::U8(1),
        RV::U16(2),
        RV::U32(300),
        RV::U64(4),
        RV::U128(5),
        RV::I8(-1),
        RV::I16(-2),
        RV::I32(-300),
        RV::I64(-4),
        RV::I128(-5),
        RV::F32(6),
        RV::F64(7),
        RV::Char('é'),
        RV::Bool(true),
        RV::Str("xy".into()),
        RV::Bytes(vec![1, 2, 3]),
        RV::Unit,
    ]
    .into_iter()
    .map(Op::Leaf)
    .collect();
    p.extend([Op::Elem, Op::FinSeq, Op::Tup, Op::TupElem, Op::FinTup, Op::Struct, Op::FinStruct]);
    p.extend(lens.iter().map(|n| Op::Fixed(*n)));
    p.extend(names.iter().map(|n| Op::Field(n.clone())));
    for n in names.iter().take(4) {
        p.extend(near(n).into_iter().map(Op::Field));
    }
    p.push(Op::Field("nope".into()));
    if enc {
        p.extend([Op::None, Op::Some, Op::Var(0), Op::Var(1), Op::Var(3)]);
        for (o, n) in &variants {
            p.push(Op::Enum(*o, n.clone()));
            p.push(Op::Enum(*o + 1, n.clone()));
            p.push(Op::Enum(*o, format!("{}x", n)));
            p.push(Op::Enum(*o + 100000, n.clone()));
        }
        for (o, n) in variants.iter().take(3) {
            p.extend(near(n).into_iter().map(|n| Op::Enum(*o, n)));
        }
        p.push(Op::Enum(0, "nope".into()));
        p.push(Op::Enum(usize::MAX, "nope".into()));
    } else {
        p.extend([Op::StrInto, Op::BytesInto, Op::Option, Op::Var(0), Op::EnumD]);
        for (_, n) in &variants {
            p.push(Op::Variant(n.clone()));
        }
        for (_, n) in variants.iter().take(3) {
            p.extend(near(n).into_iter().map(Op::Variant));
        }
        p.push(Op::Variant("nope".into()));
    }
    p
}
