//! C15: the known schema of schemas against FORMAT.txt's meta-schema, and schemas as values of it.
use crate::ctl::*;
use crate::engine::hex;
use crate::real::*;
use crate::refs::*;
use crate::rng::Rng;
use crate::serdes::{de, ser};
use binschema::{EnumSchemaVariant, KnownSchema, RecurseStack, ScalarType as T, Schema, SeqSchema, StructSchemaField};
use serde::{Deserialize, Serialize};

fn b<X>(x: X) -> Box<X> {
    Box::new(x)
}
fn st(fs: Vec<(&str, Schema)>) -> Schema {
    Schema::Struct(fs.into_iter().map(|(n, s)| StructSchemaField { name: n.to_string(), inner: s }).collect())
}
fn en(fs: Vec<(&str, Schema)>) -> Schema {
    Schema::Enum(fs.into_iter().map(|(n, s)| EnumSchemaVariant { name: n.to_string(), inner: s }).collect())
}
fn list(s: Schema) -> Schema {
    Schema::Seq(SeqSchema { len: None, inner: b(s) })
}

/// FORMAT.txt, "Meta-schema".
fn meta() -> Schema {
    let kinds = ["U8", "U16", "U32", "U64", "U128", "I8", "I16", "I32", "I64", "I128", "F32", "F64", "Char", "Bool"];
    let u64s = || Schema::Scalar(T::U64);
    let named = || list(st(vec![("name", Schema::Str), ("inner", Schema::Recurse(3))]));
    en(vec![
        ("Scalar", en(kinds.into_iter().map(|k| (k, Schema::Unit)).collect())),
        ("Str", Schema::Unit),
        ("Bytes", Schema::Unit),
        ("Unit", Schema::Unit),
        ("Option", Schema::Recurse(1)),
        ("Seq", st(vec![("len", Schema::Option(b(u64s()))), ("inner", Schema::Recurse(2))])),
        ("Tuple", list(Schema::Recurse(2))),
        ("Struct", named()),
        ("Enum", named()),
        ("Recurse", u64s()),
    ])
}

fn value(s: &Schema) -> RV {
    let named = |xs: Vec<(&String, &Schema)>| RV::Seq(xs.into_iter().map(|(n, s)| RV::Struct(vec![RV::Str(n.clone()), value(s)])).collect());
    let (o, v) = match s {
        Schema::Scalar(t) => {
            let k = match t {
                T::U8 => 0,
                T::U16 => 1,
                T::U32 => 2,
                T::U64 => 3,
                T::U128 => 4,
                T::I8 => 5,
                T::I16 => 6,
                T::I32 => 7,
                T::I64 => 8,
                T::I128 => 9,
                T::F32 => 10,
                T::F64 => 11,
                T::Char => 12,
                T::Bool => 13,
            };
            (0, RV::Enum(k, b(RV::Unit)))
        }
        Schema::Str => (1, RV::Unit),
        Schema::Bytes => (2, RV::Unit),
        Schema::Unit => (3, RV::Unit),
        Schema::Option(i) => (4, value(i)),
        Schema::Seq(q) => (5, RV::Struct(vec![q.len.map(|n| RV::Some(b(RV::U64(n as u64)))).unwrap_or(RV::None), value(&q.inner)])),
        Schema::Tuple(xs) => (6, RV::Seq(xs.iter().map(value).collect())),
        Schema::Struct(fs) => (7, named(fs.iter().map(|f| (&f.name, &f.inner)).collect())),
        Schema::Enum(vs) => (8, named(vs.iter().map(|f| (&f.name, &f.inner)).collect())),
        Schema::Recurse(n) => (9, RV::U64(*n as u64)),
    };
    RV::Enum(o, b(v))
}

/// Any schema at all, legal or not.
fn any(r: &mut Rng, depth: usize) -> Schema {
    if depth == 0 || r.chance(1, 5) {
        return match r.below(3) {
            0 => Schema::Recurse(match r.below(3) {
                0 => r.below(5),
                1 => *r.pick(&[127, 128, 16383, 16384, usize::MAX, usize::MAX - 1, 1 << 63, 1 << 32]),
                _ => r.int(64) as usize,
            }),
            _ => r.pick(&leaves()).clone(),
        };
    }
    let name = |r: &mut Rng| if r.chance(1, 2) { r.pick(NAMES).to_string() } else { r.string() };
    let n = |r: &mut Rng| if r.chance(1, 40) { 120 + r.below(200) } else { r.below(5) };
    match r.below(6) {
        0 => Schema::Option(b(any(r, depth - 1))),
        1 => Schema::Seq(SeqSchema { len: None, inner: b(any(r, depth - 1)) }),
        2 => Schema::Seq(SeqSchema { len: Some(if r.chance(1, 2) { r.below(300) } else { r.int(64) as usize }), inner: b(any(r, depth - 1)) }),
        3 => Schema::Tuple((0..n(r)).map(|i| any(r, if i < 6 { depth - 1 } else { 0 })).collect()),
        4 => Schema::Struct((0..n(r)).map(|i| StructSchemaField { name: name(r), inner: any(r, if i < 6 { depth - 1 } else { 0 }) }).collect()),
        _ => Schema::Enum((0..n(r)).map(|i| EnumSchemaVariant { name: name(r), inner: any(r, if i < 6 { depth - 1 } else { 0 }) }).collect()),
    }
}

/// One of each kind of layer, nested many times.
fn deep(r: &mut Rng, levels: usize) -> Schema {
    let mut s = r.pick(&leaves()).clone();
    let only = if r.chance(1, 2) { Some(r.below(5)) } else { None };
    for i in 0..levels {
        s = match only.unwrap_or(r.below(5)) {
            0 => Schema::Option(b(s)),
            1 => Schema::Seq(SeqSchema { len: if i % 2 == 0 { None } else { Some(i) }, inner: b(s) }),
            2 => Schema::Tuple(vec![s]),
            3 => Schema::Struct(vec![StructSchemaField { name: "f".into(), inner: s }]),
            _ => Schema::Enum(vec![EnumSchemaVariant { name: "V".into(), inner: s }]),
        };
    }
    s
}

fn check(s: &Schema, manner: Manner) -> Result<(), String> {
    let m = meta();
    let about = || {
        let t = short(s);
        t.chars().take(900).collect::<String>()
    };
    let want = encode(&m, &value(s)).map_err(|_| "reference: a schema does not conform".to_string())?;
    let known = <Schema as KnownSchema>::schema(RecurseStack::new());
    let (r, got, fin) = ser(&known, s, manner);
    r.map_err(|e| format!("serializing schema {} under the known schema of schemas {}", about(), e))?;
    if got != want {
        return Err(format!("serializing schema {} writes {} where FORMAT.txt says {}", about(), hex(&got), hex(&want)));
    }
    if !fin {
        return Err(format!("serializing schema {} leaves the coder unfinished", about()));
    }
    let mut data = want.clone();
    data.extend([4, 0x81, 0xff]);
    let (r, n, fin) = de(&known, &data, manner, |d| Schema::deserialize(d));
    match r {
        Err(e) => return Err(format!("deserializing schema {} {}", about(), e)),
        Ok(g) if g != *s => return Err(format!("deserializing schema {} gives {}", about(), short(&g))),
        _ => (),
    }
    if n != want.len() || !fin {
        return Err(format!("deserializing schema {} consumes {} bytes of {}, finished: {}", about(), n, want.len(), fin));
    }
    Ok(())
}

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
struct Holder {
    pre: u8,
    one: Schema,
    opt: Option<Schema>,
    many: Vec<Schema>,
    boxed: Box<Schema>,
}

fn holder(r: &mut Rng, manner: Manner) -> Result<(), String> {
    let h = Holder { pre: 7, one: any(r, 3), opt: if r.chance(1, 2) { Some(any(r, 3)) } else { None }, many: (0..r.below(4)).map(|_| any(r, 2)).collect(), boxed: b(any(r, 2)) };
    let v = RV::Struct(vec![
        RV::U8(7),
        value(&h.one),
        h.opt.as_ref().map(|s| RV::Some(b(value(s)))).unwrap_or(RV::None),
        RV::Seq(h.many.iter().map(value).collect()),
        value(&h.boxed),
    ]);
    let mine = st(vec![("pre", Schema::Scalar(T::U8)), ("one", meta()), ("opt", Schema::Option(b(meta()))), ("many", list(meta())), ("boxed", meta())]);
    let want = encode(&mine, &v).map_err(|_| "reference: does not conform".to_string())?;
    let root = RecurseStack::new();
    let s = root.with_type_layer::<Vec<Schema>>();
    let known = st(vec![
        ("pre", <u8 as KnownSchema>::schema(s)),
        ("one", <Schema as KnownSchema>::schema(s)),
        ("opt", <Option<Schema> as KnownSchema>::schema(s)),
        ("many", <Vec<Schema> as KnownSchema>::schema(s)),
        ("boxed", <Box<Schema> as KnownSchema>::schema(s)),
    ]);
    if known != mine {
        return Err(format!("known schemas of types holding schemas are {} and not {}", short(&known), short(&mine)));
    }
    let (r, got, fin) = ser(&known, &h, manner);
    r.map_err(|e| format!("serializing {:?} {}", h, e))?;
    if got != want || !fin {
        return Err(format!("serializing {:?} writes {} where FORMAT.txt says {}; finished: {}", h, hex(&got), hex(&want), fin));
    }
    let (r, n, fin) = de(&known, &want, manner, |d| Holder::deserialize(d));
    match r {
        Err(e) => return Err(format!("deserializing {:?} {}", h, e)),
        Ok(g) if g != h => return Err(format!("deserializing {:?} gives {:?}", h, g)),
        _ => (),
    }
    if n != want.len() || !fin {
        return Err(format!("deserializing {:?} consumes {} bytes of {}, finished: {}", h, n, want.len(), fin));
    }
    Ok(())
}

pub fn c15(ctl: &mut Ctl) -> Res {
    let m = meta();
    let mut n = 0u64;
    macro_rules! case {
        ($k:expr, $e:expr) => {
            if ctl.want(n) {
                ctl.inflight(&format!("C15 case {}", n));
                ctl.eval(&$k);
                if let Err(e) = $e {
                    return found(n, e);
                }
            }
            n += 1;
        };
    }
    let empty = RecurseStack::new();
    let s1 = empty.with_type_layer::<Schema>();
    let s2 = s1.with_none_layer();
    let s3 = s2.with_transparent_type_layer::<Schema>();
    let s4 = s3.with_type_layer::<Option<Schema>>();
    for (i, st) in [empty, s1, s2, s3, s4].into_iter().enumerate() {
        let k = <Schema as KnownSchema>::schema(st);
        case!(
            (0, i),
            if k == m { Ok(()) } else { Err(format!("the known schema of schemas is {} and not the meta-schema of FORMAT.txt {}", short(&k), short(&m))) }
        );
    }
    let mut fixed = fixed_schemas();
    fixed.extend(illegal_schemas());
    fixed.push(m.clone());
    for k in [0, 1, 2, 126, 127, 128, 129, 16383, 16384, (1 << 21) - 1, 1 << 21, u32::MAX as usize, 1 << 63, usize::MAX] {
        fixed.push(Schema::Recurse(k));
        fixed.push(Schema::Seq(SeqSchema { len: Some(k), inner: b(Schema::Unit) }));
    }
    for k in [0usize, 1, 127, 128, 300] {
        fixed.push(Schema::Tuple(vec![Schema::Unit; k]));
        fixed.push(Schema::Struct((0..k).map(|i| StructSchemaField { name: format!("f{}", i), inner: Schema::Bytes }).collect()));
        fixed.push(Schema::Enum((0..k).map(|i| EnumSchemaVariant { name: format!("V{}", i), inner: Schema::Str }).collect()));
        fixed.push(st(vec![(&"é".repeat(k), Schema::Unit)]));
    }
    for s in &fixed {
        for manner in [MANNERS[0], MANNERS[n as usize % MANNERS.len()]] {
            case!((1, format!("{:?}", s)), check(s, manner));
        }
    }
    let mut i = 0;
    while let Some(c) = ctl.next_case(n + 1000, &mut i) {
        let mut r = Rng::new(ctl.seed, c);
        ctl.inflight(&format!("C15 case {}", c));
        let manner = *r.pick(&MANNERS);
        let res = match r.below(8) {
            0 => {
                ctl.eval(&(2, c));
                holder(&mut r, manner)
            }
            1 if r.chance(1, 6) => {
                let l = 1 + r.below(if ctl.thorough { 4000 } else { 1500 });
                let s = deep(&mut r, l);
                ctl.eval(&(3, c));
                check(&s, manner)
            }
            _ => {
                let d = 1 + r.below(6);
                let s = any(&mut r, d);
                ctl.eval(&(4, format!("{:?}", s)));
                ctl.sample(|| format!("schema {}", short(&s)));
                check(&s, manner)
            }
        };
        if let Err(e) = res {
            return found(c, e);
        }
    }
    Ok(())
}
