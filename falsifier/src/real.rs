//! Running calls against the real crate, with instrumented readers and writers.
use crate::model::{Op, Ret};
use crate::refs::RV;
use binschema::error::{ErrorKind, Result};
use binschema::{CoderState, CoderStateAlloc, Decoder, Encoder, Schema};
use std::cell::{Cell, RefCell};
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// How the reader or writer behaves between the calls made on it.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Manner {
    Plain,
    OneByOne,
    /// at most three bytes at a time, with an Interrupted error before each
    Interrupted,
}

pub const MANNERS: [Manner; 3] = [Manner::Plain, Manner::OneByOne, Manner::Interrupted];

pub struct TestReader<'x> {
    pub data: &'x [u8],
    pub pos: Rc<Cell<usize>>,
    pub manner: Manner,
    /// whether running out of data is an error rather than end of file
    pub hard: bool,
    pub tick: bool,
}

impl<'x> Read for TestReader<'x> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let p = self.pos.get();
        let left = self.data.len() - p;
        let n = match self.manner {
            Manner::Plain => buf.len(),
            Manner::OneByOne => buf.len().min(1),
            Manner::Interrupted => {
                self.tick = !self.tick;
                if self.tick {
                    return Err(io::Error::from(io::ErrorKind::Interrupted));
                }
                buf.len().min(3)
            }
        }
        .min(left);
        if n == 0 && !buf.is_empty() && self.hard {
            return Err(io::Error::new(io::ErrorKind::Other, "reader failed"));
        }
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos.set(p + n);
        Ok(n)
    }
}

pub struct TestWriter {
    pub out: Rc<RefCell<Vec<u8>>>,
    pub limit: usize,
    pub manner: Manner,
    pub hard: bool,
    pub tick: bool,
}

impl Write for TestWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut out = self.out.borrow_mut();
        let left = self.limit - out.len().min(self.limit);
        let n = match self.manner {
            Manner::Plain => buf.len(),
            Manner::OneByOne => buf.len().min(1),
            Manner::Interrupted => {
                self.tick = !self.tick;
                if self.tick {
                    return Err(io::Error::from(io::ErrorKind::Interrupted));
                }
                buf.len().min(3)
            }
        }
        .min(left);
        if n == 0 && !buf.is_empty() && self.hard {
            return Err(io::Error::new(io::ErrorKind::Other, "writer failed"));
        }
        out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn enc_op<W: Write>(e: &mut Encoder<W>, op: &Op) -> Result<Ret> {
    match op {
        Op::Leaf(v) => match v {
            RV::U8(x) => e.encode_u8(*x),
            RV::U16(x) => e.encode_u16(*x),
            RV::U32(x) => e.encode_u32(*x),
            RV::U64(x) => e.encode_u64(*x),
            RV::U128(x) => e.encode_u128(*x),
            RV::I8(x) => e.encode_i8(*x),
            RV::I16(x) => e.encode_i16(*x),
            RV::I32(x) => e.encode_i32(*x),
            RV::I64(x) => e.encode_i64(*x),
            RV::I128(x) => e.encode_i128(*x),
            RV::F32(x) => e.encode_f32(f32::from_bits(*x)),
            RV::F64(x) => e.encode_f64(f64::from_bits(*x)),
            RV::Char(x) => e.encode_char(*x),
            RV::Bool(x) => e.encode_bool(*x),
            RV::Str(x) => e.encode_str(x),
            RV::Bytes(x) => e.encode_bytes(x),
            _ => e.encode_unit(),
        },
        Op::None => e.encode_none(),
        Op::Some => e.begin_some(),
        Op::Fixed(n) => e.begin_fixed_len_seq(*n),
        Op::Var(n) => e.begin_var_len_seq(*n),
        Op::Elem => e.begin_seq_elem(),
        Op::FinSeq => e.finish_seq(),
        Op::Tup => e.begin_tuple(),
        Op::TupElem => e.begin_tuple_elem(),
        Op::FinTup => e.finish_tuple(),
        Op::Struct => e.begin_struct(),
        Op::Field(n) => e.begin_struct_field(n),
        Op::FinStruct => e.finish_struct(),
        Op::Enum(o, n) => e.begin_enum(*o, n),
        _ => panic!("not an encoding call"),
    }
    .map(|()| Ret::Unit)
}

pub fn dec_op<R: Read>(d: &mut Decoder<R>, op: &Op) -> Result<Ret> {
    Ok(match op {
        Op::Leaf(v) => Ret::Leaf(match v {
            RV::U8(_) => RV::U8(d.decode_u8()?),
            RV::U16(_) => RV::U16(d.decode_u16()?),
            RV::U32(_) => RV::U32(d.decode_u32()?),
            RV::U64(_) => RV::U64(d.decode_u64()?),
            RV::U128(_) => RV::U128(d.decode_u128()?),
            RV::I8(_) => RV::I8(d.decode_i8()?),
            RV::I16(_) => RV::I16(d.decode_i16()?),
            RV::I32(_) => RV::I32(d.decode_i32()?),
            RV::I64(_) => RV::I64(d.decode_i64()?),
            RV::I128(_) => RV::I128(d.decode_i128()?),
            RV::F32(_) => RV::F32(d.decode_f32()?.to_bits()),
            RV::F64(_) => RV::F64(d.decode_f64()?.to_bits()),
            RV::Char(_) => RV::Char(d.decode_char()?),
            RV::Bool(_) => RV::Bool(d.decode_bool()?),
            RV::Str(_) => RV::Str(d.decode_str()?),
            RV::Bytes(_) => RV::Bytes(d.decode_bytes()?),
            _ => {
                d.decode_unit()?;
                RV::Unit
            }
        }),
        Op::StrInto => {
            let mut s = String::from("left over");
            d.decode_str_into(&mut s)?;
            Ret::Leaf(RV::Str(s))
        }
        Op::BytesInto => {
            let mut s = vec![7; 9];
            d.decode_bytes_into(&mut s)?;
            Ret::Leaf(RV::Bytes(s))
        }
        Op::Option => Ret::Some(d.begin_option()?),
        Op::Var(_) => Ret::Len(d.begin_var_len_seq()?),
        Op::EnumD => Ret::Ord(d.begin_enum()?),
        op => {
            match op {
                Op::Fixed(n) => d.begin_fixed_len_seq(*n)?,
                Op::Elem => d.begin_seq_elem()?,
                Op::FinSeq => d.finish_seq()?,
                Op::Tup => d.begin_tuple()?,
                Op::TupElem => d.begin_tuple_elem()?,
                Op::FinTup => d.finish_tuple()?,
                Op::Struct => d.begin_struct()?,
                Op::Field(n) => d.begin_struct_field(n)?,
                Op::FinStruct => d.finish_struct()?,
                Op::Variant(n) => d.begin_enum_variant(n)?,
                _ => panic!("not a decoding call"),
            };
            Ret::Unit
        }
    })
}

/// What was observed of one call.
#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub r: std::result::Result<Ret, ErrorKind>,
    pub panic: Option<String>,
    /// bytes written or read so far
    pub pos: usize,
    pub finished: bool,
    pub finished_res: std::result::Result<(), ErrorKind>,
    pub need: std::result::Result<String, ErrorKind>,
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

pub fn short(s: &Schema) -> String {
    let mut t = format!("{:?}", s);
    if t.len() > 4000 {
        let mut n = 4000;
        while !t.is_char_boundary(n) {
            n -= 1;
        }
        t.truncate(n);
    }
    t
}

pub enum Dev<'x> {
    Enc { limit: usize, manner: Manner, hard: bool },
    Dec { data: &'x [u8], manner: Manner, hard: bool },
}

/// Make the calls one after another, asking the coder about itself after each; `f` sees what happened and says
/// whether to go on. Returns the bytes written.
pub fn run(
    schema: &Schema,
    io: &Dev,
    alloc: CoderStateAlloc,
    want_need: bool,
    mut next: impl FnMut(Option<&Obs>) -> Option<Op>,
) -> (Vec<u8>, CoderStateAlloc) {
    let mut st = CoderState::new(schema, alloc, None);
    let out = Rc::new(RefCell::new(Vec::new()));
    let obs = |st: &CoderState, need: &dyn Fn() -> Result<String>, r: std::thread::Result<Result<Ret>>, pos: usize| {
        let (r, panic) = match r {
            Ok(Ok(x)) => (Ok(x), None),
            Ok(Err(e)) => (Err(e.kind()), None),
            Err(p) => (Err(ErrorKind::Other), Some(panic_text(p))),
        };
        Obs {
            r,
            panic,
            pos,
            finished: st.is_finished(),
            finished_res: st.is_finished_or_err().map_err(|e| e.kind()),
            need: if want_need { need().map_err(|e| e.kind()) } else { Err(ErrorKind::Other) },
        }
    };
    match io {
        Dev::Enc { limit, manner, hard } => {
            let mut w = TestWriter { out: out.clone(), limit: *limit, manner: *manner, hard: *hard, tick: false };
            let mut op = next(None);
            while let Some(o) = op {
                let mut e = Encoder::new(&mut st, &mut w);
                let r = catch_unwind(AssertUnwindSafe(|| enc_op(&mut e, &o)));
                let b = obs(e.coder_state(), &|| e.need().map(short), r, out.borrow().len());
                if b.panic.is_some() {
                    next(Some(&b));
                    break;
                }
                op = next(Some(&b));
            }
        }
        Dev::Dec { data, manner, hard } => {
            let pos = Rc::new(Cell::new(0));
            let mut rd = TestReader { data, pos: pos.clone(), manner: *manner, hard: *hard, tick: false };
            let mut op = next(None);
            while let Some(o) = op {
                let mut d = Decoder::new(&mut st, &mut rd);
                let r = catch_unwind(AssertUnwindSafe(|| dec_op(&mut d, &o)));
                let b = obs(d.coder_state(), &|| d.need().map(short), r, pos.get());
                if b.panic.is_some() {
                    next(Some(&b));
                    break;
                }
                op = next(Some(&b));
            }
        }
    }
    let v = out.borrow().clone();
    (v, st.into_alloc())
}

/// The same for a list of calls fixed in advance.
pub fn run_ops(schema: &Schema, io: &Dev, alloc: CoderStateAlloc, ops: &[Op]) -> (Vec<Obs>, Vec<u8>, CoderStateAlloc) {
    let mut i = 0;
    let mut obs = Vec::new();
    let (out, a) = run(schema, io, alloc, false, |o| {
        if let Some(o) = o {
            obs.push(o.clone());
        }
        i += 1;
        ops.get(i - 1).cloned()
    });
    (obs, out, a)
}
