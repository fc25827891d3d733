//! C04, C05, C06, C07, C09, C10, C17: histories of coding calls.
use crate::ctl::*;
use crate::engine::*;
use crate::model::*;
use crate::real::*;
use crate::refs::*;
use crate::rng::Rng;
use binschema::Schema;

fn go(ctl: &mut Ctl, n: u64, case: Case) -> Result<Option<Run>, Found> {
    let key = format!("{:?}", case.plan_key());
    ctl.eval(&(key, case.schema));
    let need = matches!(ctl.prop.as_str(), "C09" | "C17");
    match drive(&case, need) {
        Ok(r) => {
            ctl.sample(|| format!("{} calls ({} accepted, {} refused, {} fatal), finished={}: {}", r.calls, r.ok, r.mild, r.fatal, r.finished, case.describe(&[])));
            Ok(Some(r))
        }
        Err(b) => {
            let hit = if ctl.prop == "C09" { due_to_recurse(&case, &b) } else { b.props.contains(ctl.prop.as_str()) };
            if hit {
                Err(Found { case: n, what: b.text })
            } else {
                Ok(None)
            }
        }
    }
}

impl Plan {
    fn key(&self) -> String {
        match self {
            Plan::List(l) => format!("L{:?}", l),
            Plan::Intruders(l) => format!("I{:?}", l),
            Plan::Random { rng, steps, wrong } => {
                let mut r = rng.clone();
                format!("R{}/{}/{}", r.next(), steps, wrong)
            }
        }
    }
}

impl<'x> Case<'x> {
    fn plan_key(&self) -> String {
        match &self.io {
            Dev::Enc { limit, .. } => format!("{} E{}", self.plan.key(), limit),
            Dev::Dec { data, .. } => format!("{} D{:?}", self.plan.key(), data),
        }
    }
}

/// Everything about one schema and value: right calls, wrong calls in between, failing at every byte.
fn value_cases(ctl: &mut Ctl, n: u64, r: &mut Rng, s: &Schema, v: &RV, full: bool) -> Res {
    let bytes = encode(s, v).expect("generated value conforms");
    let mut ops = Vec::new();
    enc_ops(s, &vec![], v, &mut ops);
    let dops = to_dec(&ops);
    let manner = *r.pick(&MANNERS);
    let hard = r.chance(1, 2);
    let enc_io = |limit| Dev::Enc { limit, manner, hard };
    go(ctl, n, Case { schema: s, io: enc_io(usize::MAX), plan: Plan::List(ops.clone()) })?;
    let mut tail = bytes.clone();
    tail.extend([1, 0, 0xff, 0x80]);
    go(ctl, n, Case { schema: s, io: Dev::Dec { data: &tail, manner, hard }, plan: Plan::List(dops.clone()) })?;
    if ops.len() < 60 || full {
        go(ctl, n, Case { schema: s, io: enc_io(usize::MAX), plan: Plan::Intruders(ops.clone()) })?;
        go(ctl, n, Case { schema: s, io: Dev::Dec { data: &tail, manner, hard }, plan: Plan::Intruders(dops.clone()) })?;
    }
    // stop early at every point: the writer fails, the stream ends
    let step = if full { 1 } else { 1 + bytes.len() / 6 };
    let mut k = 0;
    while k < bytes.len() {
        go(ctl, n, Case { schema: s, io: enc_io(k), plan: Plan::List(ops.clone()) })?;
        go(ctl, n, Case { schema: s, io: Dev::Dec { data: &bytes[..k], manner, hard }, plan: Plan::List(dops.clone()) })?;
        k += step;
    }
    // one byte changed
    let mut k = 0;
    while k < bytes.len() {
        let mut b = tail.clone();
        for x in [2u8, 3, 0x7f, 0x80, 0xff, bytes[k].wrapping_add(1), bytes[k].wrapping_sub(1)] {
            b[k] = x;
            go(ctl, n, Case { schema: s, io: Dev::Dec { data: &b, manner, hard }, plan: Plan::List(dops.clone()) })?;
            if !full {
                let w = r.below(3);
                go(ctl, n, Case { schema: s, io: Dev::Dec { data: &b, manner, hard }, plan: Plan::Random { rng: r.clone(), steps: 60, wrong: w } })?;
                r.next();
            }
        }
        k += step;
    }
    Ok(())
}

fn random_streams(ctl: &mut Ctl, n: u64, r: &mut Rng, s: &Schema, v: Option<&RV>) -> Res {
    for _ in 0..3 {
        let wrong = r.below(6);
        let limit = if r.chance(1, 4) { r.below(20) } else { usize::MAX };
        let (manner, hard) = (*r.pick(&MANNERS), r.chance(1, 2));
        let plan = Plan::Random { rng: Rng::new(r.next(), 0), steps: 40 + r.below(120), wrong };
        go(ctl, n, Case { schema: s, io: Dev::Enc { limit, manner, hard }, plan })?;
        let mut data = match v {
            Some(v) if r.chance(3, 4) => encode(s, v).unwrap(),
            _ => (0..r.below(40)).map(|_| if r.chance(1, 2) { r.below(4) as u8 } else { r.next() as u8 }).collect(),
        };
        if r.chance(1, 3) && !data.is_empty() {
            let k = r.below(data.len());
            data[k] = r.next() as u8;
        }
        if r.chance(1, 2) {
            data.extend(r.bytes());
        }
        let plan = Plan::Random { rng: Rng::new(r.next(), 0), steps: 40 + r.below(120), wrong };
        go(ctl, n, Case { schema: s, io: Dev::Dec { data: &data, manner, hard }, plan })?;
    }
    Ok(())
}

fn long_list(k: usize, make: impl Fn(RV, usize) -> RV, end: RV) -> RV {
    let mut v = end;
    for i in 0..k {
        v = make(v, i);
    }
    v
}

pub fn campaign(ctl: &mut Ctl) -> Res {
    let recurse_only = ctl.prop == "C09";
    let mut n = 0u64;
    for s in fixed_schemas() {
        for k in 0..3 {
            n += 1;
            if !ctl.want(n) {
                continue;
            }
            let mut r = Rng::new(ctl.seed, n + 1000 * k);
            if let Some(v) = value_for(&mut r, &s) {
                value_cases(ctl, n, &mut r, &s, &v, true)?;
                random_streams(ctl, n, &mut r, &s, Some(&v))?;
            }
        }
    }
    for s in illegal_schemas() {
        n += 1;
        if !ctl.want(n) {
            continue;
        }
        let mut r = Rng::new(ctl.seed, n);
        for p in pool(&s, true) {
            go(ctl, n, Case { schema: &s, io: Dev::Enc { limit: usize::MAX, manner: Manner::Plain, hard: false }, plan: Plan::List(vec![p.clone()]) })?;
            for q in pool(&s, true) {
                let l = vec![p.clone(), q];
                go(ctl, n, Case { schema: &s, io: Dev::Enc { limit: usize::MAX, manner: Manner::Plain, hard: false }, plan: Plan::List(l) })?;
            }
        }
        for data in [&[1u8, 1, 1, 1, 1][..], &[1, 2, 1, 0, 0, 1, 1], &[0, 1, 1, 1], &[5, 1, 1, 1, 1, 1, 1]] {
            for wrong in [0, 0, 2, 5] {
                let plan = Plan::Random { rng: Rng::new(r.next(), 0), steps: 40, wrong };
                go(ctl, n, Case { schema: &s, io: Dev::Dec { data, manner: Manner::Plain, hard: false }, plan })?;
            }
        }
        for _ in 0..40 {
            random_streams(ctl, n, &mut r, &s, None)?;
        }
    }
    // deep values of recursive schemas
    let list: Schema = binschema::schema!(struct { (value: u8), (next: option(recurse(2))), (tail: u8) });
    let tree: Schema = binschema::schema!(enum { N(tuple { (option(recurse(3))), (seq(varlen)(recurse(3))) }), L(u8) });
    let two: Schema = binschema::schema!(struct { (a: option(struct { (b: option(recurse(4))), (c: option(recurse(2))), (d: u16) })), (e: str) });
    for k in [1usize, 2, 3, 5, 17, 60, 130] {
        n += 1;
        if !ctl.want(n) {
            continue;
        }
        let mut r = Rng::new(ctl.seed, n);
        let s = |v: RV| RV::Some(Box::new(v));
        let v = long_list(k, |v, i| RV::Struct(vec![RV::U8(i as u8), s(v), RV::U8(9)]), RV::Struct(vec![RV::U8(0), RV::None, RV::U8(1)]));
        value_cases(ctl, n, &mut r, &list, &v, false)?;
        let v = long_list(
            k,
            |v, i| match i % 3 {
                0 => RV::Enum(0, Box::new(RV::Tuple(vec![s(v), RV::Seq(vec![])]))),
                1 => RV::Enum(0, Box::new(RV::Tuple(vec![RV::None, RV::Seq(vec![v, RV::Enum(1, Box::new(RV::U8(3)))])]))),
                _ => RV::Enum(0, Box::new(RV::Tuple(vec![s(RV::Enum(1, Box::new(RV::U8(3)))), RV::Seq(vec![RV::Enum(1, Box::new(RV::U8(3))), v])]))),
            },
            RV::Enum(1, Box::new(RV::U8(7))),
        );
        value_cases(ctl, n, &mut r, &tree, &v, false)?;
        let leaf = || RV::Struct(vec![RV::None, RV::Str("x".into())]);
        let v = long_list(
            k,
            |v, i| {
                let inner = RV::Struct(vec![s(v), if i % 2 == 0 { RV::None } else { s(RV::Struct(vec![RV::None, RV::None, RV::U16(5)])) }, RV::U16(i as u16)]);
                RV::Struct(vec![s(inner), RV::Str("y".into())])
            },
            leaf(),
        );
        value_cases(ctl, n, &mut r, &two, &v, false)?;
    }
    let base = 10_000;
    let mut i = 0;
    while let Some(n) = ctl.next_case(base, &mut i) {
        let mut r = Rng::new(ctl.seed, n);
        let o = GenOpts { recurse: recurse_only || r.chance(1, 2), illegal: r.chance(1, 5), uninhabited: r.chance(1, 5), big_enums: r.chance(1, 10) };
        let depth = 1 + r.below(4);
        let s = gen_schema(&mut r, depth, 0, o);
        let v = if o.illegal { None } else { value_for(&mut r, &s) };
        if let Some(v) = &v {
            value_cases(ctl, n, &mut r, &s, v, false)?;
        }
        random_streams(ctl, n, &mut r, &s, v.as_ref())?;
    }
    Ok(())
}
