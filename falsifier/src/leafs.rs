//! C01, C02, C03: leaf values and enum ordinals, through the coding calls.
use crate::ctl::*;
use crate::engine::hex;
use crate::model::{leaf_schema, Op, Ret};
use crate::real::*;
use crate::refs::*;
use crate::rng::Rng;
use binschema::{schema, EnumSchemaVariant, ScalarType, Schema};
use binschema::CoderStateAlloc;
use binschema::error::ErrorKind;
use std::hash::Hash;

fn one_enc(s: &Schema, ops: &[Op], manner: Manner) -> (Vec<Obs>, Vec<u8>) {
    let (o, w, _) = run_ops(s, &Dev::Enc { limit: usize::MAX, manner, hard: false }, CoderStateAlloc::new(), ops);
    (o, w)
}

fn one_dec(s: &Schema, data: &[u8], ops: &[Op], manner: Manner) -> Vec<Obs> {
    run_ops(s, &Dev::Dec { data, manner, hard: false }, CoderStateAlloc::new(), ops).0
}

#[derive(Hash)]
struct Key<'a>(&'a str, &'a [u8]);

/// Encode `v`, decode its encoding with a tail.
fn there_and_back(ctl: &mut Ctl, n: u64, v: &RV, r: &mut Rng) -> Res {
    let s = leaf_schema(v);
    let manner = *r.pick(&MANNERS);
    let want = encode(&s, v).unwrap();
    ctl.eval(&Key("enc", &[want.as_slice(), format!("{:?}", std::mem::discriminant(v)).as_bytes()].concat()));
    ctl.sample(|| format!("{:?} <-> {}", v, hex(&want)));
    let (o, w) = one_enc(&s, &[Op::Leaf(v.clone())], manner);
    if o[0].r != Ok(Ret::Unit) || w != want || !o[0].finished {
        return found(n, format!("encoding {:?} ({:?} writer): {:?} and {}, FORMAT.txt says {}", v, manner, o[0], hex(&w), hex(&want)));
    }
    let mut data = want.clone();
    data.extend([0x80, 0xff, 1][..r.below(4)].iter());
    let mut calls = vec![Op::Leaf(v.clone())];
    match v {
        RV::Str(_) => calls.push(Op::StrInto),
        RV::Bytes(_) => calls.push(Op::BytesInto),
        _ => (),
    }
    for c in calls {
        let o = one_dec(&s, &data, &[c], manner);
        if o[0].r != Ok(Ret::Leaf(v.clone())) || o[0].pos != want.len() || !o[0].finished {
            return found(n, format!("decoding {} ({:?} reader), the encoding of {:?} in {} bytes: {:?}", hex(&data), manner, v, want.len(), o[0]));
        }
    }
    Ok(())
}

/// Decode any bytes as each of `kinds`.
fn stream(ctl: &mut Ctl, n: u64, data: &[u8], kinds: &[RV], manner: Manner) -> Res {
    for k in kinds {
        let s = leaf_schema(k);
        ctl.eval(&Key(&format!("{:?}", s), data));
        let mut src = Src { b: data, p: 0 };
        let want = src.leaf(&s);
        let mut calls = vec![Op::Leaf(k.clone())];
        match k {
            RV::Str(_) => calls.push(Op::StrInto),
            RV::Bytes(_) => calls.push(Op::BytesInto),
            _ => (),
        }
        for c in calls {
            let o = &one_dec(&s, data, &[c], manner)[0];
            let ok = match (&want, &o.r) {
                (Ok(v), Ok(Ret::Leaf(g))) => v == g && o.pos == src.p && o.finished,
                (Err(_), Err(_)) => o.panic.is_none() && o.pos <= src.p && !o.finished,
                _ => false,
            };
            if !ok {
                return found(n, format!("decoding {} as {:?} ({:?} reader): {:?}, should be {:?} after {} bytes", hex(data), s, manner, o, want, src.p));
            }
        }
    }
    Ok(())
}

fn int_kinds() -> Vec<RV> {
    vec![RV::U32(0), RV::U64(0), RV::U128(0), RV::I32(0), RV::I64(0), RV::I128(0)]
}

fn ints(x: u128) -> Vec<RV> {
    vec![
        RV::U32(x as u32),
        RV::U64(x as u64),
        RV::U128(x),
        RV::I32(x as i32),
        RV::I64(x as i64),
        RV::I128(x as i128),
    ]
}

pub fn c01(ctl: &mut Ctl) -> Res {
    let mut n = 0;
    // around every power of two, both signs
    for k in 0..128u32 {
        n += 1;
        if !ctl.want(n) {
            continue;
        }
        let mut r = Rng::new(ctl.seed, n);
        for d in -3i128..=3 {
            let x = (1u128 << k).wrapping_add(d as u128);
            for y in [x, !x, x.wrapping_neg()] {
                for v in ints(y) {
                    there_and_back(ctl, n, &v, &mut r)?;
                }
            }
        }
    }
    // all streams of one and two bytes, and of three with chosen bytes
    for a in 0..=255u8 {
        n += 1;
        if !ctl.want(n) {
            continue;
        }
        stream(ctl, n, &[a], &int_kinds(), Manner::Plain)?;
        for b in 0..=255u8 {
            stream(ctl, n, &[a, b], &int_kinds(), Manner::Plain)?;
            if a % 16 == 1 || a >= 250 {
                for c in [0, 1, 0x3f, 0x40, 0x7f, 0x80, 0xff] {
                    stream(ctl, n, &[a, b, c, 0x55], &int_kinds(), Manner::OneByOne)?;
                }
            }
        }
    }
    // continuation runs of every length with every last byte
    for len in 0..24usize {
        for fill in [0x80u8, 0x81, 0xff, 0xc0, 0xbf] {
            n += 1;
            if !ctl.want(n) {
                continue;
            }
            for last in 0..=255u8 {
                let mut d = vec![fill; len];
                d.push(last);
                d.extend([0x00, 0x01]);
                stream(ctl, n, &d, &int_kinds(), Manner::Plain)?;
                let mut d = vec![0x80; len];
                d.push(last);
                stream(ctl, n, &d, &int_kinds(), Manner::OneByOne)?;
                if len > 0 {
                    d[0] = 0xc0;
                    stream(ctl, n, &d, &int_kinds(), Manner::Plain)?;
                }
            }
        }
    }
    let mut i = 0;
    while let Some(n) = ctl.next_case(10_000, &mut i) {
        let mut r = Rng::new(ctl.seed, n);
        let x = r.int(128);
        for v in ints(x) {
            there_and_back(ctl, n, &v, &mut r)?;
        }
        let mut d: Vec<u8> = (0..1 + r.below(24)).map(|_| r.next() as u8 | 0x80).collect();
        match r.below(4) {
            0 => (),
            1 => {
                // sparse
                for b in d.iter_mut() {
                    *b = 0x80 | if r.chance(1, 5) { 1 << r.below(7) } else { 0 };
                }
            }
            _ => {
                let k = d.len() - 1;
                d[k] &= 0x7f >> r.below(8);
            }
        }
        if r.chance(1, 2) {
            d.extend([1, 0x80]);
        }
        let m = *r.pick(&MANNERS);
        stream(ctl, n, &d, &int_kinds(), m)?;
    }
    Ok(())
}

pub fn c02(ctl: &mut Ctl) -> Res {
    let mut n = 0;
    for hi in 0..=255u32 {
        n += 1;
        if !ctl.want(n) {
            continue;
        }
        let mut r = Rng::new(ctl.seed, n);
        there_and_back(ctl, n, &RV::U8(hi as u8), &mut r)?;
        there_and_back(ctl, n, &RV::I8(hi as u8 as i8), &mut r)?;
        stream(ctl, n, &[hi as u8], &[RV::Bool(true), RV::U8(0), RV::U16(0), RV::F32(0), RV::Char('a'), RV::Unit], Manner::Plain)?;
        for lo in 0..=255u32 {
            let x = (hi * 256 + lo) as u16;
            there_and_back(ctl, n, &RV::U16(x), &mut r)?;
            there_and_back(ctl, n, &RV::I16(x as i16), &mut r)?;
            stream(ctl, n, &[hi as u8, lo as u8], &[RV::Bool(true), RV::Char('a'), RV::F32(0), RV::Str(String::new()), RV::Bytes(vec![])], Manner::Plain)?;
        }
        there_and_back(ctl, n, &RV::Bool(hi % 2 == 1), &mut r)?;
        there_and_back(ctl, n, &RV::Unit, &mut r)?;
        // option markers
        let s = schema!(option(unit));
        for pre in 0..2 {
            let data = [hi as u8, 9];
            let data = &data[..2 - pre];
            let o = &one_dec(&s, data, &[Op::Option], Manner::Plain)[0];
            ctl.eval(&("option", hi));
            let want = match hi {
                0 => Some(false),
                1 => Some(true),
                _ => None,
            };
            let ok = match (want, &o.r) {
                (Some(a), Ok(Ret::Some(b))) => a == *b && o.pos == 1,
                (None, Err(_)) => o.panic.is_none() && o.pos <= 1,
                _ => false,
            };
            if !ok {
                return found(n, format!("option marker {}: {:?}", hi, o));
            }
        }
        let (o, w) = one_enc(&s, if hi % 2 == 0 { &[Op::None] } else { &[Op::Some] }, Manner::Plain);
        if w != vec![(hi % 2) as u8] || o[0].r.is_err() {
            return found(n, format!("option marker written {:?} {:?}", w, o));
        }
        // every code point of this slice (and a bit beyond), as a scalar value and as a stream
        for cp in hi * 0x1120..(hi + 1) * 0x1120 {
            if let Some(c) = char::from_u32(cp) {
                if ctl.thorough || cp % 3 == 0 || cp < 0x4800 || (0xd700..0xe100).contains(&cp) {
                    there_and_back(ctl, n, &RV::Char(c), &mut r)?;
                }
            } else {
                let mut d = vec![];
                uint(cp as u128, &mut d);
                stream(ctl, n, &d, &[RV::Char('a')], Manner::Plain)?;
            }
        }
    }
    // lengths around every place where something changes
    for len in [0usize, 1, 2, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385, 65534, 65535, 65536, 65537, 131071, 131072, 131073, 200000, 1 << 20] {
        n += 1;
        if !ctl.want(n) {
            continue;
        }
        let mut r = Rng::new(ctl.seed, n);
        let b: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
        there_and_back(ctl, n, &RV::Bytes(b.clone()), &mut r)?;
        let s: String = b.iter().map(|x| (b'a' + x % 26) as char).collect();
        there_and_back(ctl, n, &RV::Str(s), &mut r)?;
        // multi-byte characters across every boundary
        for c in ["é", "€", "😀"] {
            for off in 0..c.len() {
                let mut s = "x".repeat(off);
                while s.len() + c.len() <= len {
                    s.push_str(c);
                }
                there_and_back(ctl, n, &RV::Str(s), &mut r)?;
            }
        }
        // one bad byte somewhere, or the end too early
        for _ in 0..20 {
            let mut d = vec![];
            uint(len as u128, &mut d);
            let h = d.len();
            d.extend(std::iter::repeat(b'q').take(len));
            if len > 0 {
                let k = h + r.below(len);
                d[k] = *r.pick(&[0x80, 0xc0, 0xff, 0xe2, 0xf5, 0xed]);
            }
            d.push(0x55);
            let m = *r.pick(&MANNERS);
            stream(ctl, n, &d, &[RV::Str(String::new()), RV::Bytes(vec![])], m)?;
            let cut = r.below(d.len());
            stream(ctl, n, &d[..cut], &[RV::Str(String::new()), RV::Bytes(vec![])], m)?;
        }
    }
    for bits in [0u32, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffc12345, 1, 0x007fffff, 0x3f800000] {
        n += 1;
        if !ctl.want(n) {
            continue;
        }
        let mut r = Rng::new(ctl.seed, n);
        there_and_back(ctl, n, &RV::F32(bits), &mut r)?;
        there_and_back(ctl, n, &RV::F64((bits as u64) << 32), &mut r)?;
        there_and_back(ctl, n, &RV::F64(((bits as u64) << 32) | 1), &mut r)?;
    }
    let kinds = [
        RV::U8(0),
        RV::U16(0),
        RV::I8(0),
        RV::I16(0),
        RV::F32(0),
        RV::F64(0),
        RV::Char('a'),
        RV::Bool(true),
        RV::Str(String::new()),
        RV::Bytes(vec![]),
        RV::Unit,
    ];
    let mut i = 0;
    while let Some(n) = ctl.next_case(10_000, &mut i) {
        let mut r = Rng::new(ctl.seed, n);
        for v in [RV::F32(r.next() as u32), RV::F64(r.next()), RV::Char(r.char()), RV::Str(r.string()), RV::Bytes(r.bytes())] {
            there_and_back(ctl, n, &v, &mut r)?;
        }
        let mut d: Vec<u8> = match r.below(4) {
            0 => r.bytes(),
            1 => {
                let mut d = vec![];
                uint(r.int(128), &mut d);
                d
            }
            2 => {
                let mut d = vec![];
                uint(r.below(0x120000) as u128, &mut d);
                d
            }
            _ => {
                let s = r.string();
                let mut d = vec![];
                uint(s.len() as u128, &mut d);
                d.extend(s.as_bytes());
                d
            }
        };
        if !d.is_empty() && r.chance(1, 2) {
            let k = r.below(d.len());
            d[k] = r.next() as u8;
        }
        let m = *r.pick(&MANNERS);
        stream(ctl, n, &d, &kinds, m)?;
    }
    Ok(())
}

fn variants(n: usize) -> Schema {
    Schema::Enum((0..n).map(|_| EnumSchemaVariant { name: String::new(), inner: Schema::Unit }).collect())
}

fn enum_case(ctl: &mut Ctl, n: u64, s: &Schema, count: usize, o: usize, manner: Manner) -> Res {
    ctl.eval(&("ord", count, o));
    let (obs, w) = one_enc(s, &[Op::Enum(o, String::new()), Op::Leaf(RV::Unit)], manner);
    if o >= count {
        if obs[0].r.is_ok() || obs[0].panic.is_some() || !w.is_empty() {
            return found(n, format!("encoding ordinal {} of an enum with {} variants: {:?}, wrote {}", o, count, obs, hex(&w)));
        }
        return Ok(());
    }
    let mut want = vec![];
    ordinal(o, count, &mut want);
    ctl.sample(|| format!("ordinal {} of {} variants <-> {}", o, count, hex(&want)));
    if obs[0].r.is_err() || w != want || obs.len() != 2 || !obs[1].finished {
        return found(n, format!("encoding ordinal {} of an enum with {} variants: {:?}, wrote {}, FORMAT.txt says {}", o, count, obs, hex(&w), hex(&want)));
    }
    enum_stream(ctl, n, s, count, &want, manner)?;
    want.extend([0xff, 0x01]);
    enum_stream(ctl, n, s, count, &want, manner)
}

fn enum_stream(ctl: &mut Ctl, n: u64, s: &Schema, count: usize, data: &[u8], manner: Manner) -> Res {
    ctl.eval(&("ords", count, data));
    let mut src = Src { b: data, p: 0 };
    let want = src.ord(count);
    let obs = one_dec(s, data, &[Op::EnumD, Op::Variant(String::new()), Op::Leaf(RV::Unit)], manner);
    let o = &obs[0];
    let ok = match (want, &o.r) {
        (Ok(a), Ok(Ret::Ord(b))) => a == *b && o.pos == src.p && obs[2].finished,
        (Err(ErrorKind::MalformedData), Err(k)) => *k == ErrorKind::MalformedData && o.panic.is_none() && o.pos <= src.p,
        (Err(_), Err(_)) => o.panic.is_none(),
        _ => false,
    };
    if !ok {
        return found(n, format!("decoding an ordinal of an enum with {} variants from {} ({:?} reader): {:?}, should be {:?}", count, hex(data), manner, obs, want));
    }
    Ok(())
}

pub fn c03(ctl: &mut Ctl) -> Res {
    let mut n = 0;
    let mut counts = vec![0usize, 1, 2, 3, 4, 15, 16, 17, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 4096, 32768, 65535, 65536, 65537, 65538, 70000, 131072, 200000];
    counts.extend([(1 << 24) - 1, 1 << 24, (1 << 24) + 1]);
    for count in counts {
        n += 1;
        if !ctl.want(n) || (count == (1 << 24) - 1 && !ctl.thorough) {
            continue;
        }
        let mut r = Rng::new(ctl.seed, n);
        let s = variants(count);
        let big = count > 1 << 20;
        let mut os: Vec<usize> = vec![0, 1, 2, 127, 128, 254, 255, 256, 257, 65534, 65535, 65536, 65537, count.wrapping_sub(2), count.wrapping_sub(1), count, count + 1, count + 255, usize::MAX, 1 << 32];
        for _ in 0..if big { 3 } else { 60 } {
            os.push(r.below(count + 3));
        }
        if big {
            // refusals print the whole schema
            os.retain(|o| *o < count);
        }
        for o in os {
            let m = *r.pick(&MANNERS);
            enum_case(ctl, n, &s, count, o, m)?;
        }
        if big {
            continue;
        }
        if count <= 513 {
            for a in 0..=255u8 {
                enum_stream(ctl, n, &s, count, &[a], Manner::Plain)?;
                for b in [0u8, 1, 2, 3, 0x80, 0xff] {
                    enum_stream(ctl, n, &s, count, &[a, b, 0], Manner::OneByOne)?;
                }
            }
        }
        enum_stream(ctl, n, &s, count, &[], Manner::Plain)?;
        for _ in 0..100 {
            let d: Vec<u8> = (0..r.below(6)).map(|_| if r.chance(1, 2) { r.next() as u8 } else { r.below(3) as u8 }).collect();
            enum_stream(ctl, n, &s, count, &d, *r.pick(&MANNERS))?;
        }
    }
    let mut i = 0;
    while let Some(n) = ctl.next_case(10_000, &mut i) {
        let mut r = Rng::new(ctl.seed, n);
        let count = 1 + if r.chance(1, 3) { r.below(2000) } else { r.int(16) as usize };
        let s = variants(count);
        for _ in 0..10 {
            let o = r.below(count + 2);
            enum_case(ctl, n, &s, count, o, Manner::Plain)?;
            let d: Vec<u8> = (0..r.below(4)).map(|_| r.next() as u8).collect();
            enum_stream(ctl, n, &s, count, &d, Manner::Plain)?;
        }
    }
    let _ = ScalarType::U8;
    Ok(())
}
