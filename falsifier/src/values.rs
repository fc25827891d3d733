//! C08 (dynamic values), C11 (untrusted bytes), C16 (reused allocations).
use crate::alloc;
use crate::ctl::*;
use crate::engine::{drive_on, hex, Case, Plan};
use crate::real::*;
use crate::refs::*;
use crate::rng::Rng;
use binschema::error::ErrorKind;
use binschema::value::{EnumValue, ScalarValue, StructValueField, Value};
use binschema::{schema, CoderState, CoderStateAlloc, Decoder, Encoder, ScalarType, Schema, SeqSchema};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub fn to_value<'a>(s: &'a Schema, ctx: &Ctx<'a>, v: &RV) -> Value {
    let (s, ctx) = resolve(s, ctx).unwrap();
    let c = inside(s, &ctx);
    match (s, v) {
        (_, RV::U8(x)) => Value::Scalar(ScalarValue::U8(*x)),
        (_, RV::U16(x)) => Value::Scalar(ScalarValue::U16(*x)),
        (_, RV::U32(x)) => Value::Scalar(ScalarValue::U32(*x)),
        (_, RV::U64(x)) => Value::Scalar(ScalarValue::U64(*x)),
        (_, RV::U128(x)) => Value::Scalar(ScalarValue::U128(*x)),
        (_, RV::I8(x)) => Value::Scalar(ScalarValue::I8(*x)),
        (_, RV::I16(x)) => Value::Scalar(ScalarValue::I16(*x)),
        (_, RV::I32(x)) => Value::Scalar(ScalarValue::I32(*x)),
        (_, RV::I64(x)) => Value::Scalar(ScalarValue::I64(*x)),
        (_, RV::I128(x)) => Value::Scalar(ScalarValue::I128(*x)),
        (_, RV::F32(x)) => Value::Scalar(ScalarValue::F32(f32::from_bits(*x))),
        (_, RV::F64(x)) => Value::Scalar(ScalarValue::F64(f64::from_bits(*x))),
        (_, RV::Char(x)) => Value::Scalar(ScalarValue::Char(*x)),
        (_, RV::Bool(x)) => Value::Scalar(ScalarValue::Bool(*x)),
        (_, RV::Str(x)) => Value::Str(x.clone()),
        (_, RV::Bytes(x)) => Value::Bytes(x.clone()),
        (_, RV::Unit) => Value::Unit,
        (_, RV::None) => Value::Option(None),
        (Schema::Option(i), RV::Some(x)) => Value::Option(Some(Box::new(to_value(i, &c, x)))),
        (Schema::Seq(q), RV::Seq(xs)) => {
            let v = xs.iter().map(|x| to_value(&q.inner, &c, x)).collect();
            if q.len.is_some() {
                Value::FixedLenSeq(v)
            } else {
                Value::VarLenSeq(v)
            }
        }
        (Schema::Tuple(ss), RV::Tuple(xs)) => Value::Tuple(ss.iter().zip(xs).map(|(i, x)| to_value(i, &c, x)).collect()),
        (Schema::Struct(fs), RV::Struct(xs)) => {
            Value::Struct(fs.iter().zip(xs).map(|(f, x)| StructValueField { name: f.name.clone(), value: to_value(&f.inner, &c, x) }).collect())
        }
        (Schema::Enum(vs), RV::Enum(o, x)) => {
            Value::Enum(EnumValue { variant_ord: *o, variant_name: vs[*o].name.clone(), value: Box::new(to_value(&vs[*o].inner, &c, x)) })
        }
        _ => unreachable!(),
    }
}

/// The reference value of a dynamic value that conforms to the schema, names included; None if it does not.
pub fn conforms<'a>(s: &'a Schema, ctx: &Ctx<'a>, v: &Value) -> Option<RV> {
    let (s, ctx) = resolve(s, ctx)?;
    let c = inside(s, &ctx);
    use ScalarType as T;
    Some(match (s, v) {
        (Schema::Scalar(t), Value::Scalar(x)) => match (t, x) {
            (T::U8, ScalarValue::U8(x)) => RV::U8(*x),
            (T::U16, ScalarValue::U16(x)) => RV::U16(*x),
            (T::U32, ScalarValue::U32(x)) => RV::U32(*x),
            (T::U64, ScalarValue::U64(x)) => RV::U64(*x),
            (T::U128, ScalarValue::U128(x)) => RV::U128(*x),
            (T::I8, ScalarValue::I8(x)) => RV::I8(*x),
            (T::I16, ScalarValue::I16(x)) => RV::I16(*x),
            (T::I32, ScalarValue::I32(x)) => RV::I32(*x),
            (T::I64, ScalarValue::I64(x)) => RV::I64(*x),
            (T::I128, ScalarValue::I128(x)) => RV::I128(*x),
            (T::F32, ScalarValue::F32(x)) => RV::F32(x.to_bits()),
            (T::F64, ScalarValue::F64(x)) => RV::F64(x.to_bits()),
            (T::Char, ScalarValue::Char(x)) => RV::Char(*x),
            (T::Bool, ScalarValue::Bool(x)) => RV::Bool(*x),
            _ => return None,
        },
        (Schema::Str, Value::Str(x)) => RV::Str(x.clone()),
        (Schema::Bytes, Value::Bytes(x)) => RV::Bytes(x.clone()),
        (Schema::Unit, Value::Unit) => RV::Unit,
        (Schema::Option(_), Value::Option(None)) => RV::None,
        (Schema::Option(i), Value::Option(Some(x))) => RV::Some(Box::new(conforms(i, &c, x)?)),
        (Schema::Seq(SeqSchema { len: Some(n), inner }), Value::FixedLenSeq(xs)) if *n == xs.len() => {
            RV::Seq(xs.iter().map(|x| conforms(inner, &c, x)).collect::<Option<_>>()?)
        }
        (Schema::Seq(SeqSchema { len: None, inner }), Value::VarLenSeq(xs)) => RV::Seq(xs.iter().map(|x| conforms(inner, &c, x)).collect::<Option<_>>()?),
        (Schema::Tuple(ss), Value::Tuple(xs)) if ss.len() == xs.len() => {
            RV::Tuple(ss.iter().zip(xs).map(|(i, x)| conforms(i, &c, x)).collect::<Option<_>>()?)
        }
        (Schema::Struct(fs), Value::Struct(xs)) if fs.len() == xs.len() => RV::Struct(
            fs.iter().zip(xs).map(|(f, x)| if f.name == x.name { conforms(&f.inner, &c, &x.value) } else { None }).collect::<Option<_>>()?,
        ),
        (Schema::Enum(vs), Value::Enum(e)) => {
            let w = vs.get(e.variant_ord)?;
            if w.name != e.variant_name {
                return None;
            }
            RV::Enum(e.variant_ord, Box::new(conforms(&w.inner, &c, &e.value)?))
        }
        _ => return None,
    })
}

/// A small change somewhere in the value.
fn mutate(r: &mut Rng, v: &mut Value) {
    let down = r.chance(2, 3);
    match v {
        Value::Option(Some(x)) if down => return mutate(r, x),
        Value::FixedLenSeq(xs) | Value::VarLenSeq(xs) | Value::Tuple(xs) if down && !xs.is_empty() => {
            let i = r.below(xs.len());
            return mutate(r, &mut xs[i]);
        }
        Value::Struct(fs) if down && !fs.is_empty() => {
            let i = r.below(fs.len());
            return mutate(r, &mut fs[i].value);
        }
        Value::Enum(e) if down => return mutate(r, &mut e.value),
        _ => (),
    }
    match (v, r.below(3)) {
        (Value::FixedLenSeq(xs) | Value::VarLenSeq(xs) | Value::Tuple(xs), 0) => {
            xs.pop();
        }
        (Value::FixedLenSeq(xs) | Value::VarLenSeq(xs) | Value::Tuple(xs), 1) => xs.push(xs.last().cloned().unwrap_or(Value::Unit)),
        (Value::Struct(fs), 0) => {
            fs.pop();
        }
        (Value::Struct(fs), 1) if fs.len() > 1 => fs.swap(0, 1),
        (Value::Struct(fs), _) if !fs.is_empty() => fs[0].name.push('x'),
        (Value::Enum(e), 0) => e.variant_ord += 1,
        (Value::Enum(e), 1) => e.variant_name.push('x'),
        (Value::Enum(e), _) => e.variant_ord = e.variant_ord.wrapping_sub(1),
        (v, _) => {
            *v = match r.below(9) {
                0 => Value::Scalar(ScalarValue::U8(0)),
                1 => Value::Scalar(ScalarValue::I32(-1)),
                2 => Value::Str("s".into()),
                3 => Value::Bytes(vec![1]),
                4 => Value::Unit,
                5 => Value::Option(None),
                6 => Value::FixedLenSeq(vec![]),
                7 => Value::VarLenSeq(vec![]),
                _ => Value::Tuple(vec![]),
            }
        }
    }
}

pub fn encode_value(s: &Schema, v: &Value, limit: usize, manner: Manner) -> (std::thread::Result<Result<(), ErrorKind>>, Vec<u8>, bool) {
    let out = Rc::new(RefCell::new(Vec::new()));
    let mut w = TestWriter { out: out.clone(), limit, manner, hard: false, tick: false };
    let mut st = CoderState::new(s, CoderStateAlloc::new(), None);
    let r = catch_unwind(AssertUnwindSafe(|| v.encode_to(&mut Encoder::new(&mut st, &mut w)).map_err(|e| e.kind())));
    let o = out.borrow().clone();
    (r, o, st.is_finished())
}

pub fn decode_value(s: &Schema, data: &[u8], manner: Manner) -> (std::thread::Result<Result<Value, ErrorKind>>, usize, bool) {
    let pos = Rc::new(Cell::new(0));
    let mut rd = TestReader { data, pos: pos.clone(), manner, hard: false, tick: false };
    let mut st = CoderState::new(s, CoderStateAlloc::new(), None);
    let r = catch_unwind(AssertUnwindSafe(|| Value::decode_from(&mut Decoder::new(&mut st, &mut rd)).map_err(|e| e.kind())));
    (r, pos.get(), st.is_finished())
}

fn c08_case(ctl: &mut Ctl, n: u64, r: &mut Rng, s: &Schema, v: &RV) -> Res {
    let bytes = encode(s, v).unwrap();
    let val = to_value(s, &vec![], v);
    let manner = *r.pick(&MANNERS);
    ctl.eval(&(s, &bytes));
    ctl.sample(|| format!("{} under {} <-> {}", format!("{:?}", val), short(s), hex(&bytes)));
    let (res, out, fin) = encode_value(s, &val, usize::MAX, manner);
    if !matches!(res, Ok(Ok(()))) || out != bytes || !fin {
        return found(n, format!("encoding {:?} under {}: {:?}, finished={}, wrote {}, FORMAT.txt says {}", val, short(s), res.map_err(panic_text), fin, hex(&out), hex(&bytes)));
    }
    let mut data = bytes.clone();
    data.extend([0, 1, 0xff, 0x80][..r.below(5)].iter());
    let (res, pos, fin) = decode_value(s, &data, manner);
    match res {
        Ok(Ok(g)) if conforms(s, &vec![], &g).as_ref() == Some(v) && pos == bytes.len() && fin => (),
        res => {
            return found(
                n,
                format!("decoding {} under {}: {:?} after {} bytes, finished={}, should be {:?} after {}", hex(&data), short(s), res.map_err(panic_text), pos, fin, val, bytes.len()),
            )
        }
    }
    // any stream: what is decoded is what the reference decodes
    for _ in 0..3 {
        let mut d = data.clone();
        if !d.is_empty() {
            let k = r.below(d.len());
            d[k] = if r.chance(1, 2) { r.below(4) as u8 } else { r.next() as u8 };
            if r.chance(1, 4) {
                d.truncate(k);
            }
        }
        let mut fuel = 2000;
        let mut src = Src { b: &d, p: 0 };
        let want = dec(s, &vec![], &mut src, &mut fuel);
        if matches!(want, Err(ErrorKind::Other)) {
            continue;
        }
        ctl.eval(&(s, &d));
        let (res, pos, fin) = decode_value(s, &d, manner);
        let ok = match (&want, &res) {
            (Ok(v), Ok(Ok(g))) => conforms(s, &vec![], g).as_ref() == Some(v) && pos == src.p && fin,
            (Err(_), Ok(Err(_))) => !fin,
            _ => false,
        };
        if !ok {
            return found(n, format!("decoding {} under {}: {:?} after {} bytes, finished={}, should be {:?} after {}", hex(&d), short(s), res.map_err(panic_text), pos, fin, want, src.p));
        }
    }
    // values that do not conform, and writers that fail
    for _ in 0..4 {
        let mut bad = val.clone();
        mutate(r, &mut bad);
        let want = conforms(s, &vec![], &bad);
        let limit = if r.chance(1, 3) && !bytes.is_empty() { r.below(bytes.len()) } else { usize::MAX };
        let (res, out, fin) = encode_value(s, &bad, limit, manner);
        let ok = match (want, res.as_ref()) {
            (Some(w), Ok(r)) => {
                let e = encode(s, &w).unwrap();
                if e.len() <= limit {
                    r.is_ok() && fin && e == out
                } else {
                    r.is_err() && !fin
                }
            }
            (None, Ok(r)) => r.is_err() && !fin,
            _ => false,
        };
        if !ok {
            return found(n, format!("encoding {:?} under {} (writer takes {} bytes): {:?}, finished={}, wrote {}", bad, short(s), limit, res.map_err(panic_text), fin, hex(&out)));
        }
    }
    Ok(())
}

pub fn c08(ctl: &mut Ctl) -> Res {
    let mut n = 0;
    for s in fixed_schemas() {
        for k in 0..8 {
            n += 1;
            if !ctl.want(n) {
                continue;
            }
            let mut r = Rng::new(ctl.seed, n + 1000 * k);
            if let Some(v) = value_for(&mut r, &s) {
                c08_case(ctl, n, &mut r, &s, &v)?;
            }
        }
    }
    // long sequences, long strings, many variants
    for len in [0usize, 1, 255, 1023, 1024, 1025, 3000] {
        n += 1;
        if !ctl.want(n) {
            continue;
        }
        let mut r = Rng::new(ctl.seed, n);
        let v = RV::Seq((0..len).map(|i| RV::U16(i as u16)).collect());
        c08_case(ctl, n, &mut r, &schema!(seq(varlen)(u16)), &v)?;
        c08_case(ctl, n, &mut r, &Schema::Seq(SeqSchema { len: Some(len), inner: Box::new(schema!(u16)) }), &v)?;
        let v = RV::Seq((0..len).map(|i| if i % 3 == 0 { RV::None } else { RV::Some(Box::new(RV::Unit)) }).collect());
        c08_case(ctl, n, &mut r, &schema!(seq(varlen)(option(unit))), &v)?;
        c08_case(ctl, n, &mut r, &schema!(seq(varlen)(unit)), &RV::Seq(vec![RV::Unit; len]))?;
        if len > 0 {
            let s = Schema::Enum((0..len).map(|i| binschema::EnumSchemaVariant { name: i.to_string(), inner: schema!(u8) }).collect());
            c08_case(ctl, n, &mut r, &s, &RV::Enum(len - 1, Box::new(RV::U8(1))))?;
            let s = Schema::Struct((0..len).map(|i| binschema::StructSchemaField { name: i.to_string(), inner: schema!(u8) }).collect());
            c08_case(ctl, n, &mut r, &s, &RV::Struct(vec![RV::U8(5); len]))?;
        }
    }
    let mut i = 0;
    while let Some(n) = ctl.next_case(10_000, &mut i) {
        let mut r = Rng::new(ctl.seed, n);
        let o = GenOpts { recurse: r.chance(1, 2), illegal: false, uninhabited: r.chance(1, 5), big_enums: r.chance(1, 10) };
        let depth = 1 + r.below(5);
        let s = gen_schema(&mut r, depth, 0, o);
        for _ in 0..3 {
            if let Some(v) = value_for(&mut r, &s) {
                c08_case(ctl, n, &mut r, &s, &v)?;
            }
        }
    }
    Ok(())
}

// ---- C11 ----

/// Nodes the reference decoder goes through on this stream.
fn effort(s: &Schema, d: &[u8]) -> Option<usize> {
    let mut fuel = 100_000;
    let mut src = Src { b: d, p: 0 };
    let _ = dec(s, &vec![], &mut src, &mut fuel);
    if fuel == 0 {
        None
    } else {
        Some(100_000 - fuel)
    }
}

fn c11_bytes(ctl: &mut Ctl, n: u64, s: &Schema, d: &[u8], manner: Manner) -> Res {
    let nodes = match effort(s, d) {
        Some(x) => x,
        // more elements than worth decoding (only zero-size elements, or recursion without end)
        None => return Ok(()),
    };
    ctl.eval(&(s, d));
    ctl.sample(|| format!("{} under {}", hex(d), short(s)));
    ctl.inflight(&format!("case {}: decoding a dynamic value from {} under {} ({:?} reader)", n, hex(d), short(s), manner));
    let base = alloc::reset_peak();
    let (res, pos, _) = decode_value(s, d, manner);
    let used = alloc::peak() - base;
    let seqs = nodes as i64;
    let bound = (1 << 20) + 4 * d.len() as i64 + seqs * (128 << 10);
    let tight = (3 << 20) + 8 * pos as i64 + if nodes < 40 { 40 * (128 << 10) } else { seqs * (128 << 10) };
    match res {
        Err(p) => return found(n, format!("panic decoding {} under {} ({:?} reader): {}", hex(d), short(s), manner, panic_text(p))),
        Ok(r) => {
            if used > bound.max(tight) {
                return found(n, format!("{} bytes allocated decoding {} ({} bytes read, {} elements) under {}: {:?}", used, hex(d), pos, nodes, short(s), r.is_ok()));
            }
        }
    }
    Ok(())
}

/// Decoding one str or bytes, or just the length of a sequence, of a stream which declares much.
fn c11_leaf(ctl: &mut Ctl, n: u64, s: &Schema, d: &[u8], op: crate::model::Op, manner: Manner) -> Res {
    ctl.eval(&(s, d, format!("{:?}", op)));
    ctl.inflight(&format!("case {}: {:?} on {} under {} ({:?} reader)", n, op, hex(d), short(s), manner));
    let base = alloc::reset_peak();
    let (o, _, _) = run_ops(s, &Dev::Dec { data: d, manner, hard: false }, CoderStateAlloc::new(), &[op.clone()]);
    let used = alloc::peak() - base;
    if let Some(p) = &o[0].panic {
        return found(n, format!("panic in {:?} on {} under {}: {}", op, hex(d), short(s), p));
    }
    // String::from_utf8, growth by doubling, and copies of the result in the harness
    let bound = (1 << 20) + 6 * o[0].pos as i64;
    if used > bound {
        return found(n, format!("{} bytes allocated by {:?} on {} ({} bytes read) under {}", used, op, hex(d), o[0].pos, short(s)));
    }
    Ok(())
}

pub fn c11(ctl: &mut Ctl) -> Res {
    use crate::model::{pool, Op};
    let mut n = 0;
    // lengths that lie
    let mut lens: Vec<u128> = vec![1, 100, 65535, 65536, 65537, 1 << 20, 1 << 26, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, 1 << 56, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1, 1 << 64, (1 << 64) + 5, 1 << 100, !0];
    lens.extend([(1u128 << 63) / 56, (1 << 63) / 32, (1 << 63) / 24, (1u128 << 63) - 24, (1u128 << 64) - 65536]);
    let schemas = [
        schema!(str),
        schema!(bytes),
        schema!(seq(varlen)(u8)),
        schema!(seq(varlen)(u64)),
        schema!(seq(varlen)(str)),
        schema!(seq(varlen)(seq(varlen)(u8))),
        schema!(seq(varlen)(tuple { (u8), (bytes) })),
        schema!(option(str)),
        schema!(seq(varlen)(option(bytes))),
        schema!(struct { (a: u8), (b: seq(varlen)(bool)) }),
        schema!(enum { A(bytes), B(seq(varlen)(char)) }),
        schema!(seq(varlen)(recurse(1))),
    ];
    for l in &lens {
        n += 1;
        if !ctl.want(n) {
            continue;
        }
        for s in &schemas {
            for pre in [&[][..], &[1], &[0], &[3]] {
                for tail in [0usize, 1, 5, 3000] {
                    let mut d = pre.to_vec();
                    uint(*l, &mut d);
                    d.extend(std::iter::repeat(1).take(tail));
                    c11_bytes(ctl, n, s, &d, Manner::Plain)?;
                }
            }
        }
        for tail in [0usize, 1, 70000, 300000] {
            let mut d = vec![];
            uint(*l, &mut d);
            d.extend(std::iter::repeat(b'a').take(tail));
            for m in [Manner::Plain, Manner::Interrupted] {
                c11_leaf(ctl, n, &schemas[0], &d, Op::Leaf(RV::Str(String::new())), m)?;
                c11_leaf(ctl, n, &schemas[0], &d, Op::StrInto, m)?;
                c11_leaf(ctl, n, &schemas[1], &d, Op::Leaf(RV::Bytes(vec![])), m)?;
                c11_leaf(ctl, n, &schemas[1], &d, Op::BytesInto, m)?;
                c11_leaf(ctl, n, &schemas[2], &d, Op::Var(0), m)?;
            }
        }
        // fixed lengths in the schema
        if *l <= usize::MAX as u128 {
            for inner in [schema!(u8), schema!(str), schema!(option(u8))] {
                let s = Schema::Seq(SeqSchema { len: Some(*l as usize), inner: Box::new(inner) });
                for d in [&[][..], &[1, 1, 1], &[0; 100]] {
                    c11_bytes(ctl, n, &s, d, Manner::Plain)?;
                }
            }
        }
    }
    // big enums and ordinals
    for k in [1usize, 2, 255, 256, 257, 65536, 65537] {
        n += 1;
        if !ctl.want(n) {
            continue;
        }
        let s = Schema::Enum((0..k).map(|_| binschema::EnumSchemaVariant { name: "v".into(), inner: schema!(u8) }).collect());
        for d in [&[][..], &[0], &[1], &[255], &[255, 255], &[0, 1], &[1, 1, 1, 1], &[0, 0, 1, 1], &[1, 0, 1, 1], &[255; 20]] {
            c11_bytes(ctl, n, &s, d, Manner::Plain)?;
        }
    }
    let schemas: Vec<Schema> = fixed_schemas().into_iter().chain(illegal_schemas()).chain([Schema::Enum(vec![]), schema!(option(enum {})), schema!(seq(varlen)(enum {}))]).collect();
    for s in &schemas {
        n += 1;
        if !ctl.want(n) {
            continue;
        }
        for a in 0..=255u8 {
            for tail in [&[][..], &[0; 30], &[1; 30], &[0xff; 30], &[0x80; 30], &[2, 0, 1, 3, 1, 0, 1, 1, 0, 0, 1, 1]] {
                let mut d = vec![a];
                d.extend(tail);
                c11_bytes(ctl, n, s, &d, Manner::Plain)?;
            }
        }
        let mut r = Rng::new(ctl.seed, n);
        for p in pool(s, false) {
            for q in pool(s, false) {
                let d = r.bytes();
                let plan = Plan::List(vec![p.clone(), q.clone()]);
                let case = Case { schema: s, io: Dev::Dec { data: &d, manner: Manner::Plain, hard: false }, plan };
                if let Err(b) = drive_on(&case, false, CoderStateAlloc::new()).0 {
                    if b.props.contains("C11") {
                        return found(n, b.text);
                    }
                }
                ctl.evals += 1;
            }
        }
    }
    let mut i = 0;
    while let Some(n) = ctl.next_case(10_000, &mut i) {
        let mut r = Rng::new(ctl.seed, n);
        let o = GenOpts { recurse: r.chance(1, 2), illegal: r.chance(1, 4), uninhabited: r.chance(1, 3), big_enums: r.chance(1, 10) };
        let depth = 1 + r.below(5);
        let s = gen_schema(&mut r, depth, 0, o);
        let v = if o.illegal { None } else { value_for(&mut r, &s) };
        for _ in 0..10 {
            let mut d = match &v {
                Some(v) if r.chance(3, 4) => encode(&s, v).unwrap(),
                _ => (0..r.below(60)).map(|_| if r.chance(1, 2) { r.below(4) as u8 } else { r.next() as u8 }).collect(),
            };
            for _ in 0..r.below(4) {
                if !d.is_empty() {
                    let k = r.below(d.len());
                    match r.below(3) {
                        0 => d[k] = r.next() as u8,
                        1 => {
                            let mut l = vec![];
                            uint(r.int(128), &mut l);
                            d.splice(k..k, l);
                        }
                        _ => d.truncate(k),
                    }
                }
            }
            let m = *r.pick(&MANNERS);
            c11_bytes(ctl, n, &s, &d, m)?;
            let plan = Plan::Random { rng: Rng::new(r.next(), 0), steps: 80, wrong: r.below(5) };
            let case = Case { schema: &s, io: Dev::Dec { data: &d, manner: m, hard: false }, plan };
            ctl.evals += 1;
            ctl.inflight(&format!("case {}: {}", n, case.describe(&[])));
            if let Err(b) = drive_on(&case, false, CoderStateAlloc::new()).0 {
                if b.props.contains("C11") {
                    return found(n, b.text);
                }
            }
        }
    }
    Ok(())
}

/// The native recursion of Value::decode_from, one level of the message at a time (a known finding).
pub fn deep_probe(levels: usize) {
    let s = schema!(option(recurse(1)));
    let d = vec![1u8; levels];
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut rd = &d[..];
    let r = Value::decode_from(&mut Decoder::new(&mut st, &mut rd));
    println!("survived: ok={}", r.is_ok());
    std::mem::forget(r);
}

// ---- C16 ----

pub fn c16(ctl: &mut Ctl) -> Res {
    let mut i = 0;
    while let Some(n) = ctl.next_case(0, &mut i) {
        let mut r = Rng::new(ctl.seed, n);
        ctl.inflight(&format!("case {}: a history of allocations being made, reused, cloned and dropped", n));
        let mut text = String::new();
        let (res, bad, left) = alloc::watched(|| {
            let mut pool: Vec<CoderStateAlloc> = Vec::new();
            let mut log = String::new();
            let steps = 2 + r.below(12);
            for _ in 0..steps {
                match r.below(11) {
                    10 => {
                        // far down, left there or broken there
                        let a = if pool.is_empty() || r.chance(1, 4) { CoderStateAlloc::new() } else { pool.remove(r.below(pool.len())) };
                        let s = schema!(option(seq(varlen)(recurse(2))));
                        let mut st = CoderState::new(&s, a, None);
                        let deep = *r.pick(&[3usize, 20, 70, 200, 300, 600, 1100, 4200]) + r.below(5);
                        let mut v = Vec::new();
                        let mut e = Encoder::new(&mut st, &mut v);
                        let mut ok = true;
                        for _ in 0..deep {
                            ok = ok && e.begin_some().is_ok() && e.begin_var_len_seq(1).is_ok() && e.begin_seq_elem().is_ok();
                        }
                        if !ok {
                            return Err(format!("after {}{} levels of option(seq(varlen)(recurse(2))) are refused", log, deep));
                        }
                        if r.chance(1, 2) {
                            // all the way back up
                            ok = e.encode_none().is_ok();
                            for _ in 0..deep - 1 {
                                ok = ok && e.finish_seq().is_ok();
                            }
                            ok = ok && !e.coder_state().is_finished() && e.finish_seq().is_ok() && e.coder_state().is_finished();
                            if !ok {
                                return Err(format!("after {}finishing {} levels of option(seq(varlen)(recurse(2))) is refused", log, deep));
                            }
                        }
                        log.push_str(&format!("{} levels deep; ", deep));
                        if r.chance(7, 8) {
                            pool.push(st.into_alloc());
                        }
                    }
                    0 => {
                        pool.push(CoderStateAlloc::new());
                        log.push_str("new; ");
                    }
                    1 => {
                        pool.push(CoderStateAlloc::default());
                        log.push_str("default; ");
                    }
                    2 if !pool.is_empty() => {
                        let k = r.below(pool.len());
                        let c = pool[k].clone();
                        pool.push(c);
                        log.push_str(&format!("clone {}; ", k));
                    }
                    3 if !pool.is_empty() => {
                        let k = r.below(pool.len());
                        drop(pool.remove(k));
                        log.push_str(&format!("drop {}; ", k));
                    }
                    4 if !pool.is_empty() => {
                        // a coder that is dropped with its allocation
                        let k = r.below(pool.len());
                        let a = pool.remove(k);
                        let s = schema!(tuple { (u8), (option(recurse(2))) });
                        let mut st = CoderState::new(&s, a, None);
                        let mut v = Vec::new();
                        let mut e = Encoder::new(&mut st, &mut v);
                        let _ = e.begin_tuple();
                        if r.chance(1, 2) {
                            let _ = e.begin_tuple_elem();
                        }
                        log.push_str(&format!("drop coder from {}; ", k));
                    }
                    _ => {
                        let a = if pool.is_empty() || r.chance(1, 5) { CoderStateAlloc::new() } else { pool.remove(r.below(pool.len())) };
                        // schemas that live no longer than this step
                        let o = GenOpts { recurse: true, illegal: r.chance(1, 5), uninhabited: false, big_enums: false };
                        let depth = 1 + r.below(4);
                        let s = gen_schema(&mut r, depth, 0, o);
                        let enc = r.chance(1, 2);
                        let data: Vec<u8> = (0..r.below(30)).map(|_| r.below(4) as u8).collect();
                        let mk = |plan: Plan| Case {
                            schema: &s,
                            io: if enc { Dev::Enc { limit: 25, manner: Manner::Plain, hard: false } } else { Dev::Dec { data: &data, manner: Manner::Plain, hard: false } },
                            plan,
                        };
                        let plan = Plan::Random { rng: Rng::new(r.next(), 0), steps: 1 + r.below(60), wrong: r.below(4) };
                        let case = mk(plan.clone());
                        log.push_str(&format!("{}code under {}; ", if enc { "en" } else { "de" }, short(&s)));
                        let (x, a) = drive_on(&case, false, a);
                        if let Err(b) = x {
                            // only if a fresh allocation does better
                            if drive_on(&mk(plan), false, CoderStateAlloc::new()).0.is_ok() {
                                return Err(format!("after {}with a reused allocation: {}", log, b.text));
                            }
                        }
                        pool.push(a);
                    }
                }
            }
            if r.chance(1, 2) {
                pool.reverse();
            }
            drop(pool);
            text = log.clone();
            drop(log);
            Ok(())
        });
        let res: Result<(), String> = res;
        ctl.eval(&text);
        if let Err(t) = res {
            return found(n, t);
        }
        if bad > 0 {
            return found(n, format!("{} frees of blocks that were not live (or with another size), after {}", bad, text));
        }
        // what may remain: the text itself
        let keep = if text.capacity() > 0 { 1 } else { 0 };
        if left > keep {
            return found(n, format!("{} blocks leaked by {}", left - keep, text));
        }
        ctl.sample(|| text.clone());
    }
    Ok(())
}
