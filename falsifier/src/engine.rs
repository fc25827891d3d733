//! Differential runs of the coding API against the reference model, and what each disagreement violates.
use crate::model::*;
use crate::real::*;
use crate::refs::*;
use crate::rng::Rng;
use binschema::error::ErrorKind::{self, *};
use binschema::{CoderStateAlloc, Schema};
use std::collections::BTreeSet;

pub struct Mismatch {
    pub props: BTreeSet<&'static str>,
    pub text: String,
    pub ops: Vec<Op>,
}

#[derive(Clone)]
pub enum Plan {
    /// these calls, then the whole pool
    List(Vec<Op>),
    /// these calls, with every pool call the model refuses mildly made before each of them
    Intruders(Vec<Op>),
    /// mostly calls that are right, `wrong` of 16 from the pool
    Random { rng: Rng, steps: usize, wrong: usize },
}

pub struct Case<'x> {
    pub schema: &'x Schema,
    pub io: Dev<'x>,
    pub plan: Plan,
}

impl<'x> Case<'x> {
    fn enc(&self) -> bool {
        matches!(self.io, Dev::Enc { .. })
    }
    pub fn describe(&self, ops: &[Op]) -> String {
        let io = match &self.io {
            Dev::Enc { limit, manner, hard } => format!("encoding to a writer accepting {} bytes ({:?}, hard={})", limit, manner, hard),
            Dev::Dec { data, manner, hard } => format!("decoding {} ({:?}, hard={})", hex(data), manner, hard),
        };
        let n = ops.len();
        let from = n.saturating_sub(120);
        format!("schema {}; {}; {} calls{}: {:?}", short(self.schema), io, n, if from > 0 { ", the last 120" } else { "" }, &ops[from..])
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(400) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 400 {
        s.push_str(&format!(".. ({} bytes)", b.len()));
    }
    format!("[{}]", s)
}

/// A call that is right in the model's state.
fn right(m: &Model, rng: &mut Rng, enc: bool, deep: bool) -> Op {
    let top = match m.stack.last() {
        Some(t) => t,
        None => return Op::Leaf(RV::Unit),
    };
    match (&top.st, top.s) {
        (St::Need, s) if is_leaf(s) => Op::Leaf(gen_value(rng, s, &vec![], &mut 1, &mut 10).unwrap()),
        (St::Need, Schema::Option(_)) => match enc {
            false => Op::Option,
            true if deep || rng.chance(1, 3) => Op::None,
            true => Op::Some,
        },
        (St::Need, Schema::Seq(q)) => match q.len {
            Some(n) => Op::Fixed(n),
            None => Op::Var(if deep { 0 } else { rng.below(3) }),
        },
        (St::Need, Schema::Tuple(_)) => Op::Tup,
        (St::Need, Schema::Struct(_)) => Op::Struct,
        (St::Need, Schema::Enum(vs)) => {
            if !enc {
                Op::EnumD
            } else if vs.is_empty() {
                Op::Enum(0, "a".into())
            } else {
                let o = rng.below(vs.len());
                Op::Enum(o, vs[o].name.clone())
            }
        }
        (St::Seq { len, next }, _) => {
            if next < len {
                Op::Elem
            } else {
                Op::FinSeq
            }
        }
        (St::Tuple(n), Schema::Tuple(ss)) => {
            if *n < ss.len() {
                Op::TupElem
            } else {
                Op::FinTup
            }
        }
        (St::Struct(n), Schema::Struct(fs)) => {
            if *n < fs.len() {
                Op::Field(fs[*n].name.clone())
            } else {
                Op::FinStruct
            }
        }
        (St::EnumOrd(o), Schema::Enum(vs)) => Op::Variant(vs[*o].name.clone()),
        _ => Op::Leaf(RV::Unit),
    }
}

pub struct Run {
    pub calls: usize,
    pub ok: usize,
    pub mild: usize,
    pub fatal: usize,
    pub finished: bool,
    pub wrote: Vec<u8>,
}

fn has_recurse(s: &Schema) -> bool {
    match s {
        Schema::Recurse(_) => true,
        Schema::Option(i) => has_recurse(i),
        Schema::Seq(q) => has_recurse(&q.inner),
        Schema::Tuple(v) => v.iter().any(has_recurse),
        Schema::Struct(v) => v.iter().any(|f| has_recurse(&f.inner)),
        Schema::Enum(v) => v.iter().any(|f| has_recurse(&f.inner)),
        _ => false,
    }
}

/// The schema with its recurses replaced by what they stand for, `fuel` nodes at most.
pub fn unroll<'a>(s: &'a Schema, ctx: &Ctx<'a>, fuel: &mut usize, depth: usize) -> Option<Schema> {
    if *fuel == 0 {
        return None;
    }
    *fuel -= 1;
    let (s, ctx) = resolve(s, ctx)?;
    if depth == 0 {
        return Some(Schema::Unit);
    }
    let c = inside(s, &ctx);
    let mut sub = |i: &'a Schema| unroll(i, &c, fuel, depth - 1);
    Some(match s {
        Schema::Option(i) => Schema::Option(Box::new(sub(i)?)),
        Schema::Seq(q) => Schema::Seq(binschema::SeqSchema { len: q.len, inner: Box::new(sub(&q.inner)?) }),
        Schema::Tuple(v) => Schema::Tuple(v.iter().map(|i| sub(i)).collect::<Option<_>>()?),
        Schema::Struct(v) => Schema::Struct(
            v.iter().map(|f| Some(binschema::StructSchemaField { name: f.name.clone(), inner: sub(&f.inner)? })).collect::<Option<_>>()?,
        ),
        Schema::Enum(v) => Schema::Enum(
            v.iter().map(|f| Some(binschema::EnumSchemaVariant { name: f.name.clone(), inner: sub(&f.inner)? })).collect::<Option<_>>()?,
        ),
        s => s.clone(),
    })
}

pub fn drive(case: &Case, check_need: bool) -> Result<Run, Mismatch> {
    drive_on(case, check_need, CoderStateAlloc::new()).0
}

pub fn drive_on(case: &Case, check_need: bool, alloc: CoderStateAlloc) -> (Result<Run, Mismatch>, CoderStateAlloc) {
    let enc = case.enc();
    let schema = case.schema;
    let mut m = Model::new(schema);
    let pool_ops = pool(schema, enc);
    let mut plan = case.plan.clone();
    let mut at = 0usize;
    let mut intr = 0usize;
    let mut post: Option<Vec<Op>> = None;
    let mut ops: Vec<Op> = Vec::new();
    let mut out: Vec<u8> = Vec::new();
    let mut src = Src { b: if let Dev::Dec { data, .. } = &case.io { data } else { &[] }, p: 0 };
    let mut run_ = Run { calls: 0, ok: 0, mild: 0, fatal: 0, finished: false, wrote: vec![] };
    let mut milds: Vec<usize> = Vec::new();
    let mut pending: Option<(Out, Model, usize, bool)> = None;
    let mut bad: Option<Mismatch> = None;
    let limit = if let Dev::Enc { limit, .. } = case.io { limit } else { 0 };

    let (wrote, alloc) = {
        let m = &mut m;
        let out = &mut out;
        let src = &mut src;
        let bad = &mut bad;
        let ops = &mut ops;
        let run_ = &mut run_;
        let milds = &mut milds;
        run(schema, &case.io, alloc, check_need, |obs| {
            if let (Some(obs), Some((want, before, pos0, finished0))) = (obs, pending.take()) {
                let pos1 = if enc { out.len() } else { src.p };
                run_.calls += 1;
                match want {
                    Out::Ok(_) => run_.ok += 1,
                    Out::Mild(_) => {
                        run_.mild += 1;
                        milds.push(ops.len() - 1)
                    }
                    Out::Fatal(_) => run_.fatal += 1,
                }
                if let Some(b) = judge(enc, case, &before, &want, m, obs, pos0, pos1, finished0, milds, ops, check_need) {
                    *bad = Some(b);
                    return None;
                }
                if let Out::Fatal(_) = want {
                    // the position after a failure is whatever was consumed; nothing may move any more
                    if enc {
                        out.resize(obs.pos, 0);
                    } else {
                        src.p = obs.pos;
                    }
                }
            }
            if (m.broken || m.stack.is_empty()) && post.is_none() {
                let mut p = pool_ops.clone();
                if m.stack.len() > 20 {
                    // messages of errors grow with the stack
                    let mut k = ops.len();
                    p.retain(|_| {
                        k += 1;
                        k % 6 == 0
                    });
                }
                post = Some(p);
            }
            let op = if let Some(p) = &mut post {
                p.pop()?
            } else {
                match &mut plan {
                    Plan::List(l) => {
                        at += 1;
                        match l.get(at - 1) {
                            Some(o) => o.clone(),
                            None => return None,
                        }
                    }
                    Plan::Intruders(l) => loop {
                        if at >= l.len() {
                            return None;
                        }
                        if intr < pool_ops.len() {
                            let o = pool_ops[intr].clone();
                            intr += 1;
                            let mut t = m.clone();
                            let mut tsrc = Src { b: src.b, p: src.p };
                            let w = if enc { t.encode(&o, &mut vec![], usize::MAX) } else { t.decode(&o, &mut tsrc) };
                            if matches!(w, Out::Mild(_)) {
                                break o;
                            }
                        } else {
                            intr = 0;
                            at += 1;
                            break l[at - 1].clone();
                        }
                    },
                    Plan::Random { rng, steps, wrong } => {
                        if *steps == 0 {
                            return None;
                        }
                        *steps -= 1;
                        if rng.below(16) < *wrong {
                            rng.pick(&pool_ops).clone()
                        } else {
                            let deep = m.stack.len() > 12 || *steps < 30;
                            right(m, rng, enc, deep)
                        }
                    }
                }
            };
            let before = m.clone();
            let (pos0, finished0) = (if enc { out.len() } else { src.p }, m.finished());
            let want = if enc { m.encode(&op, out, limit - pos0.min(limit)) } else { m.decode(&op, src) };
            pending = Some((want, before, pos0, finished0));
            ops.push(op.clone());
            Some(op)
        })
    };
    run_.finished = m.finished();
    if let Some(b) = bad {
        return (Err(b), alloc);
    }
    if enc && !m.broken && wrote != out {
        // found only now if the lengths agree but the bytes do not
        let mut props = BTreeSet::new();
        if m.finished() {
            props.insert("C04");
        }
        let text = format!("wrote {} where FORMAT.txt says {}; {}", hex(&wrote), hex(&out), case.describe(&ops));
        return (Err(Mismatch { props, text, ops }), alloc);
    }
    run_.wrote = wrote;
    (Ok(run_), alloc)
}

#[allow(clippy::too_many_arguments)]
fn judge(
    enc: bool,
    case: &Case,
    before: &Model,
    want: &Out,
    after: &Model,
    obs: &Obs,
    pos0: usize,
    pos1: usize,
    finished0: bool,
    milds: &[usize],
    ops: &[Op],
    check_need: bool,
) -> Option<Mismatch> {
    let c45 = if enc { "C04" } else { "C05" };
    let mut props: BTreeSet<&'static str> = BTreeSet::new();
    let mut text: Vec<String> = Vec::new();
    macro_rules! fail {
        ($ps:expr, $t:expr) => {{
            let ps: &[&'static str] = $ps;
            props.extend(ps);
            text.push($t);
        }};
    }
    if let Some(p) = &obs.panic {
        if before.broken {
            fail!(&["C07"], format!("panic after a fatal error: {}", p));
        } else if finished0 {
            fail!(&["C10"], format!("panic on a finished coder: {}", p));
        } else {
            match want {
                Out::Ok(_) => fail!(&[c45], format!("panic in a call that is right: {}", p)),
                Out::Mild(_) => fail!(&["C06", "C17"], format!("panic in a call that is to be refused: {}", p)),
                Out::Fatal(ks) => {
                    fail!(&["C17"], format!("panic in a call that is to fail: {}", p));
                    if ks.contains(&IllegalSchema) {
                        fail!(&["C09"], String::new());
                    }
                }
            }
        }
        if !enc {
            fail!(&["C11"], String::new());
        }
        if !before.broken && !milds.is_empty() {
            // did a call that was refused before it have a hand in it?
            let last = ops.len() - 1;
            let kept: Vec<Op> = ops.iter().enumerate().filter(|(i, _)| *i == last || !milds.contains(i)).map(|(_, o)| o.clone()).collect();
            let (o2, _, _) = run_ops(case.schema, &case.io, CoderStateAlloc::new(), &kept);
            if o2.len() == kept.len() && o2.iter().all(|o| o.panic.is_none()) {
                fail!(&["C06"], "(and no panic when the calls refused before it are left out)".into());
            }
        }
    } else {
        match (want, &obs.r) {
            (Out::Ok(w), Ok(g)) => {
                if w != g {
                    fail!(&[c45], format!("returned {:?}, but the message says {:?}", g, w));
                }
                if obs.pos != pos1 {
                    fail!(&[c45], format!("{} bytes in all after the call, should be {}", obs.pos, pos1));
                }
            }
            (Out::Ok(_), Err(k)) => {
                fail!(&[c45], format!("refused with {:?} though it is a right call", k));
                // did a call that failed mildly before have a hand in it?
                if !milds.is_empty() {
                    let kept: Vec<Op> = ops.iter().enumerate().filter(|(i, _)| !milds.contains(i)).map(|(_, o)| o.clone()).collect();
                    let (o2, _, _) = run_ops(case.schema, &case.io, CoderStateAlloc::new(), &kept);
                    if o2.len() == kept.len() && o2.last().map(|o| o.r.is_ok()).unwrap_or(false) {
                        fail!(&["C06"], "(and accepted when the calls refused before it are left out)".into());
                        if *k == ApiUsage {
                            fail!(&["C07"], String::new());
                        }
                    }
                }
            }
            (Out::Mild(k), Ok(_)) => {
                if before.broken {
                    fail!(&["C07"], "accepted after a fatal error".into());
                } else if finished0 {
                    fail!(&["C10", c45], "accepted by a finished coder".into());
                } else {
                    fail!(&[c45], format!("accepted, should be refused with {:?}", k));
                    if !milds.is_empty() {
                        let last = ops.len() - 1;
                        let kept: Vec<Op> =
                            ops.iter().enumerate().filter(|(i, _)| *i == last || !milds.contains(i)).map(|(_, o)| o.clone()).collect();
                        let (o2, _, _) = run_ops(case.schema, &case.io, CoderStateAlloc::new(), &kept);
                        if o2.len() == kept.len() && o2.last().map(|o| o.r.is_err()).unwrap_or(false) {
                            fail!(&["C06"], "(and refused when the calls refused before it are left out)".into());
                        }
                    }
                }
            }
            (Out::Mild(k), Err(g)) => {
                if k != g {
                    fail!(&["C17"], format!("failed with {:?}, should be {:?}", g, k));
                    if before.broken {
                        fail!(&["C07"], String::new());
                    }
                }
                if obs.pos != pos0 && matches!(g, ApiUsage | SchemaNonConformance) {
                    fail!(if before.broken { &["C07"] } else { &["C06"] }, format!("{} bytes moved by a refused call", obs.pos - pos0));
                }
            }
            (Out::Fatal(ks), Ok(g)) => {
                fail!(&[c45], format!("returned {:?}, should fail with {:?}", g, ks));
                if ks.contains(&IllegalSchema) {
                    fail!(&["C09"], String::new());
                }
                if ks.contains(&Io) {
                    fail!(&["C17"], String::new());
                }
            }
            (Out::Fatal(ks), Err(g)) => {
                if !ks.contains(g) {
                    fail!(&["C17"], format!("failed with {:?}, should be {:?}", g, ks));
                    if ks.contains(&IllegalSchema) {
                        fail!(&["C09"], String::new());
                    }
                    if matches!(g, ApiUsage | SchemaNonConformance) && obs.pos != pos0 {
                        fail!(&["C06"], "and moved bytes".into());
                    }
                }
                if !enc && obs.pos > pos1 {
                    fail!(&["C05"], format!("read up to byte {}, the element ends at {}", obs.pos, pos1));
                }
            }
        }
        if props.is_empty() {
            if obs.finished != after.finished() {
                let p: &[&'static str] = match (obs.finished, after.broken) {
                    (true, true) => &["C07", "C10"],
                    (true, false) => &["C10"],
                    _ => &["C10"],
                };
                fail!(p, format!("is_finished is {}, should be {}", obs.finished, after.finished()));
                if obs.finished {
                    fail!(&[c45], String::new());
                }
            }
        }
        if obs.finished_res.is_ok() != obs.finished || matches!(obs.finished_res, Err(k) if k != ApiUsage) {
            fail!(&["C10"], format!("is_finished is {} but is_finished_or_err is {:?}", obs.finished, obs.finished_res));
        }
        if check_need && !after.broken {
            let w: Result<String, ErrorKind> = after.need().map(short);
            if w != obs.need {
                match (&w, &obs.need) {
                    (Err(a), Err(b)) => fail!(&["C17"], format!("need() fails with {:?}, should be {:?}", b, a)),
                    (a, b) => fail!(&["C09n"], format!("need() is {:?}, should be {:?}", b, a)),
                }
            }
        }
    }
    if props.is_empty() {
        return None;
    }
    let n = ops.len();
    let text: Vec<String> = text.into_iter().filter(|t| !t.is_empty()).collect();
    Some(Mismatch {
        props,
        text: format!("call {} ({:?}): {}; {}", n, ops[n - 1], text.join("; "), case.describe(ops)),
        ops: ops.to_vec(),
    })
}

/// Whether the disagreement is due to recurse: the same calls on the unrolled schema agree with the model.
pub fn due_to_recurse(case: &Case, b: &Mismatch) -> bool {
    if !has_recurse(case.schema) {
        return false;
    }
    if b.props.contains("C09") {
        return true;
    }
    // deep enough that the place where unrolling stops is not reached
    let enc = case.enc();
    let mut m = Model::new(case.schema);
    let mut src = Src { b: if let Dev::Dec { data, .. } = &case.io { data } else { &[] }, p: 0 };
    let mut depth = 1;
    for o in &b.ops {
        if enc {
            m.encode(o, &mut vec![], usize::MAX);
        } else {
            m.decode(o, &mut src);
        }
        depth = depth.max(m.stack.len());
    }
    let mut fuel = 100000;
    match unroll(case.schema, &vec![], &mut fuel, depth + 1) {
        Some(u) => {
            let io = match &case.io {
                Dev::Enc { limit, manner, hard } => Dev::Enc { limit: *limit, manner: *manner, hard: *hard },
                Dev::Dec { data, manner, hard } => Dev::Dec { data, manner: *manner, hard: *hard },
            };
            drive(&Case { schema: &u, io, plan: Plan::List(b.ops.clone()) }, false).is_ok()
        }
        None => false,
    }
}
