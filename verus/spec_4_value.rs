//@file C08,C04,C09
// Values, what FORMAT.txt says of them, and what coding one whole value does.
pub use crate::value::{Value, ScalarValue, StructValueField, EnumValue};

/// the entries of a map, in the order they are coded in
pub struct FMap<K, V> { pub v: Vec<(K, V)> }

pub enum GV {
    Scalar(ScalarType, int), Str(Seq<char>), Bytes(Seq<u8>), Unit, None, Some(Box<GV>),
    FixedSeq(Seq<GV>), VarSeq(Seq<GV>), Tuple(Seq<GV>), Struct(Seq<Seq<char>>, Seq<GV>), Enum(nat, Seq<char>, Box<GV>),
}

// ---- FORMAT.txt: what conforms to a schema, and its bytes
/// from the schemas down to one in the schema tree, those down to its child
pub open spec fn child(p: Seq<Schema>, c: Schema) -> Option<Seq<Schema>> {
    match c {
        Schema::Recurse(n) => if 1 <= n && n <= p.len() { Some(p.take(p.len() - n + 1)) } else { None },
        _ => Some(p.push(c)),
    }
}
pub open spec fn scalar_ok(t: ScalarType, x: int) -> bool {
    match t {
        ScalarType::U8 => 0 <= x <= u8::MAX, ScalarType::U16 => 0 <= x <= u16::MAX, ScalarType::U32 => 0 <= x <= u32::MAX,
        ScalarType::U64 => 0 <= x <= u64::MAX, ScalarType::U128 => 0 <= x <= u128::MAX,
        ScalarType::I8 => i8::MIN <= x <= i8::MAX, ScalarType::I16 => i16::MIN <= x <= i16::MAX, ScalarType::I32 => i32::MIN <= x <= i32::MAX,
        ScalarType::I64 => i64::MIN <= x <= i64::MAX, ScalarType::I128 => i128::MIN <= x <= i128::MAX,
        ScalarType::F32 => 0 <= x <= u32::MAX, ScalarType::F64 => 0 <= x <= u64::MAX,
        ScalarType::Char => 0 <= x && is_scalar_value(x as nat), ScalarType::Bool => 0 <= x <= 1,
    }
}
pub open spec fn scalar_enc(t: ScalarType, x: int) -> Seq<u8> {
    match t {
        ScalarType::U8 => le(x as nat, 1), ScalarType::U16 => le(x as nat, 2),
        ScalarType::I8 => le(twos(x, 0x100), 1), ScalarType::I16 => le(twos(x, 0x1_0000), 2),
        ScalarType::U32 | ScalarType::U64 | ScalarType::U128 | ScalarType::Char => uint_enc(x as nat),
        ScalarType::I32 | ScalarType::I64 | ScalarType::I128 => sint_enc(x),
        ScalarType::F32 => le(x as nat, 4), ScalarType::F64 => le(x as nat, 8),
        ScalarType::Bool => seq![if x == 1 { 1u8 } else { 0u8 }],
    }
}
/// the value conforms to the last of these schemas, where the others are above it in the schema tree
pub open spec fn conf(g: GV, p: Seq<Schema>) -> bool
    decreases g,
{
    p.len() > 0 && match (g, p.last()) {
        (GV::Scalar(t, x), Schema::Scalar(u)) => t == u && scalar_ok(t, x),
        (GV::Str(x), Schema::Str) => encode_utf8(x).len() <= usize::MAX,
        (GV::Bytes(x), Schema::Bytes) => x.len() <= usize::MAX,
        (GV::Unit, Schema::Unit) => true,
        (GV::None, Schema::Option(_)) => true,
        (GV::Some(x), Schema::Option(c)) => child(p, *c) is Some && conf(*x, child(p, *c)->Some_0),
        (GV::FixedSeq(es), Schema::Seq(q)) => q.len is Some && q.len->Some_0 as nat == es.len()
            && (forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> child(p, *q.inner) is Some && conf(es[i], child(p, *q.inner)->Some_0)),
        (GV::VarSeq(es), Schema::Seq(q)) => q.len is None && es.len() <= usize::MAX
            && (forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> child(p, *q.inner) is Some && conf(es[i], child(p, *q.inner)->Some_0)),
        (GV::Tuple(es), Schema::Tuple(ts)) => es.len() == ts@.len()
            && (forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> child(p, ts@[i]) is Some && conf(es[i], child(p, ts@[i])->Some_0)),
        (GV::Struct(ns, es), Schema::Struct(fs)) => es.len() == fs@.len() && ns.len() == es.len()
            && (forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> ns[i] == fs@[i].name@ && child(p, fs@[i].inner) is Some && conf(es[i], child(p, fs@[i].inner)->Some_0)),
        (GV::Enum(o, n, x), Schema::Enum(vs)) => o < vs@.len() && n == vs@[o as int].name@
            && child(p, vs@[o as int].inner) is Some && conf(*x, child(p, vs@[o as int].inner)->Some_0),
        _ => false,
    }
}
/// the bytes of a value which conforms
pub open spec fn enc(g: GV, p: Seq<Schema>) -> Seq<u8>
    decreases g, 0nat,
{
    match (g, p.last()) {
        (GV::Scalar(t, x), _) => scalar_enc(t, x),
        (GV::Str(x), _) => str_enc(x),
        (GV::Bytes(x), _) => bytes_enc(x),
        (GV::Unit, _) => Seq::empty(),
        (GV::None, _) => seq![0u8],
        (GV::Some(x), Schema::Option(c)) => seq![1u8] + enc(*x, child(p, *c)->Some_0),
        (GV::FixedSeq(es), _) => enc_seq(es, es.len(), p),
        (GV::VarSeq(es), _) => uint_enc(es.len()) + enc_seq(es, es.len(), p),
        (GV::Tuple(es), _) => enc_seq(es, es.len(), p),
        (GV::Struct(ns, es), _) => enc_seq(es, es.len(), p),
        (GV::Enum(o, n, x), Schema::Enum(vs)) => ord_enc(o, vs@.len()) + enc(*x, child(p, vs@[o as int].inner)->Some_0),
        _ => Seq::empty(),
    }
}
/// the i-th child of a seq, tuple or struct
pub open spec fn nth(s: Schema, i: int) -> Schema {
    match s { Schema::Seq(q) => *q.inner, Schema::Tuple(ts) => ts@[i], Schema::Struct(fs) => fs@[i].inner, _ => Schema::Unit }
}
/// the bytes of the first n elements
pub open spec fn enc_seq(es: Seq<GV>, n: nat, p: Seq<Schema>) -> Seq<u8>
    decreases es, n,
{
    if n == 0 || n > es.len() { Seq::empty() }
    else { enc_seq(es, (n - 1) as nat, p) + enc(es[n - 1], child(p, nth(p.last(), n - 1))->Some_0) }
}

// ---- coding a whole value, call by call
pub struct Run<'a> { pub tr: Tr<'a>, pub b: Seq<u8> }
pub open spec fn pre<'a>(b: Seq<u8>, r: Run<'a>) -> Run<'a> { Run { tr: r.tr, b: b + r.b } }
pub enum Kind { Seq, Tuple, Struct }
pub open spec fn t_elem<'a>(k: Kind, name: Seq<char>, s: Seq<StackFrame<'a>>) -> Tr<'a> {
    match k { Kind::Seq => t_seq_elem(s), Kind::Tuple => t_tuple_elem(s), Kind::Struct => t_field(s, name) }
}
pub open spec fn t_finish<'a>(k: Kind, s: Seq<StackFrame<'a>>) -> Tr<'a> {
    match k { Kind::Seq => t_finish_seq(s), Kind::Tuple => t_finish_tuple(s), Kind::Struct => t_finish_struct(s) }
}
/// after the elements, the finish
pub open spec fn finish<'a>(k: Kind, b: Seq<u8>, r: Run<'a>) -> Run<'a> {
    match r.tr { Tr::Ok(u) => Run { tr: t_finish(k, u), b: b + r.b }, tr => Run { tr, b: b + r.b } }
}
/// the call which begins what has elements
pub open spec fn begun<'a>(g: GV, s: Seq<StackFrame<'a>>) -> Tr<'a> {
    match g {
        GV::FixedSeq(es) => if es.len() <= usize::MAX { t_begin_fixed(s, es.len() as usize) } else { Tr::Refuse(ErrorKind::SchemaNonConformance) },
        GV::VarSeq(es) => if es.len() <= usize::MAX { e_begin_var(s, es.len() as usize) } else { Tr::Refuse(ErrorKind::SchemaNonConformance) },
        GV::Tuple(es) => t_begin_tuple(s),
        GV::Struct(ns, es) => if ns.len() == es.len() { t_begin_struct(s) } else { Tr::Refuse(ErrorKind::SchemaNonConformance) },
        _ => Tr::Refuse(ErrorKind::SchemaNonConformance),
    }
}
#[verifier::opaque]
pub open spec fn run<'a>(g: GV, s: Seq<StackFrame<'a>>) -> Run<'a>
    decreases g, 0nat,
{
    match g {
        GV::Scalar(t, x) => Run { tr: if scalar_ok(t, x) { t_code(s, Schema::Scalar(t)) } else { Tr::Refuse(ErrorKind::SchemaNonConformance) }, b: scalar_enc(t, x) },
        GV::Str(x) => Run { tr: if encode_utf8(x).len() <= usize::MAX { t_code(s, Schema::Str) } else { Tr::Refuse(ErrorKind::SchemaNonConformance) }, b: str_enc(x) },
        GV::Bytes(x) => Run { tr: if x.len() <= usize::MAX { t_code(s, Schema::Bytes) } else { Tr::Refuse(ErrorKind::SchemaNonConformance) }, b: bytes_enc(x) },
        GV::Unit => Run { tr: t_code(s, Schema::Unit), b: Seq::empty() },
        GV::None => Run { tr: e_none(s), b: seq![0u8] },
        GV::Some(x) => match e_some(s) { Tr::Ok(t) => pre(seq![1u8], run(*x, t)), tr => Run { tr, b: Seq::empty() } },
        GV::FixedSeq(es) => match begun(g, s) { Tr::Ok(t) => finish(Kind::Seq, Seq::empty(), run_seq(Kind::Seq, Seq::empty(), es, es.len(), t)), tr => Run { tr, b: Seq::empty() } },
        GV::VarSeq(es) => match begun(g, s) { Tr::Ok(t) => finish(Kind::Seq, uint_enc(es.len()), run_seq(Kind::Seq, Seq::empty(), es, es.len(), t)), tr => Run { tr, b: Seq::empty() } },
        GV::Tuple(es) => match begun(g, s) { Tr::Ok(t) => finish(Kind::Tuple, Seq::empty(), run_seq(Kind::Tuple, Seq::empty(), es, es.len(), t)), tr => Run { tr, b: Seq::empty() } },
        GV::Struct(ns, es) => match begun(g, s) { Tr::Ok(t) => finish(Kind::Struct, Seq::empty(), run_seq(Kind::Struct, ns, es, es.len(), t)), tr => Run { tr, b: Seq::empty() } },
        GV::Enum(o, n, x) => match (if o <= usize::MAX { e_enum(s, o as usize, n) } else { Tr::Refuse(ErrorKind::SchemaNonConformance) }) {
            Tr::Ok(t) => pre(ord_enc(o, nvars(s)), run(*x, t)),
            tr => Run { tr, b: Seq::empty() },
        },
    }
}
/// the first n elements
#[verifier::opaque]
pub open spec fn run_seq<'a>(k: Kind, ns: Seq<Seq<char>>, es: Seq<GV>, n: nat, s: Seq<StackFrame<'a>>) -> Run<'a>
    decreases es, n,
{
    if n == 0 || n > es.len() { Run { tr: Tr::Ok(s), b: Seq::empty() } }
    else {
        let r = run_seq(k, ns, es, (n - 1) as nat, s);
        match r.tr { Tr::Ok(t) => match t_elem(k, ns[n - 1], t) { Tr::Ok(u) => pre(r.b, run(es[n - 1], u)), tr => Run { tr, b: r.b } }, tr => r }
    }
}

// ---- the values of the crate
pub open spec fn gscalar(v: ScalarValue) -> GV {
    match v {
        ScalarValue::U8(n) => GV::Scalar(ScalarType::U8, n as int), ScalarValue::U16(n) => GV::Scalar(ScalarType::U16, n as int),
        ScalarValue::U32(n) => GV::Scalar(ScalarType::U32, n as int), ScalarValue::U64(n) => GV::Scalar(ScalarType::U64, n as int),
        ScalarValue::U128(n) => GV::Scalar(ScalarType::U128, n as int),
        ScalarValue::I8(n) => GV::Scalar(ScalarType::I8, n as int), ScalarValue::I16(n) => GV::Scalar(ScalarType::I16, n as int),
        ScalarValue::I32(n) => GV::Scalar(ScalarType::I32, n as int), ScalarValue::I64(n) => GV::Scalar(ScalarType::I64, n as int),
        ScalarValue::I128(n) => GV::Scalar(ScalarType::I128, n as int),
        ScalarValue::F32(x) => GV::Scalar(ScalarType::F32, x.bits() as int), ScalarValue::F64(x) => GV::Scalar(ScalarType::F64, x.bits() as int),
        ScalarValue::Char(c) => GV::Scalar(ScalarType::Char, (c as u32) as int),
        ScalarValue::Bool(b) => GV::Scalar(ScalarType::Bool, if b { 1 } else { 0 }),
    }
}
pub proof fn lemma_gscalar(v: ScalarValue)
    ensures gscalar(v) matches GV::Scalar(t, x) && scalar_ok(t, x),
{ if let ScalarValue::Char(c) = v { axiom_char(c); } }
#[verifier::opaque]
pub open spec fn gv(v: Value) -> GV
    decreases v, 0nat,
{
    match v {
        Value::Scalar(x) => gscalar(x),
        Value::Str(x) => GV::Str(x@),
        Value::Bytes(x) => GV::Bytes(x@),
        Value::Unit => GV::Unit,
        Value::Option(None) => GV::None,
        Value::Option(Some(x)) => GV::Some(Box::new(gv(*x))),
        Value::FixedLenSeq(es) => GV::FixedSeq(gvs(es, es@.len())),
        Value::VarLenSeq(es) => GV::VarSeq(gvs(es, es@.len())),
        Value::Tuple(es) => GV::Tuple(gvs(es, es@.len())),
        Value::Struct(fs) => GV::Struct(Seq::new(fs@.len(), |i: int| fs@[i].name@), gvf(fs, fs@.len())),
        Value::Enum(e) => GV::Enum(e.variant_ord as nat, e.variant_name@, Box::new(gv(*e.value))),
    }
}
pub open spec fn gvs(es: Vec<Value>, n: nat) -> Seq<GV>
    decreases es, n,
{
    if n == 0 || n > es@.len() { Seq::empty() } else { gvs(es, (n - 1) as nat).push(gv(es@[n - 1])) }
}
pub open spec fn gvf(es: Vec<StructValueField>, n: nat) -> Seq<GV>
    decreases es, n,
{
    if n == 0 || n > es@.len() { Seq::empty() } else { gvf(es, (n - 1) as nat).push(gv(es@[n - 1].value)) }
}
pub proof fn lemma_gvs(es: Vec<Value>, n: nat)
    requires n <= es@.len(),
    ensures gvs(es, n).len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] gvs(es, n)[i]) == gv(es@[i]),
    decreases n,
{ reveal(gv); if n > 0 { lemma_gvs(es, (n - 1) as nat); } }
pub proof fn lemma_gvf(es: Vec<StructValueField>, n: nat)
    requires n <= es@.len(),
    ensures gvf(es, n).len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] gvf(es, n)[i]) == gv(es@[i].value),
    decreases n,
{ reveal(gv); if n > 0 { lemma_gvf(es, (n - 1) as nat); } }

// ---- the parts of a value with elements
pub open spec fn gkind(g: GV) -> Kind { match g { GV::Tuple(_) => Kind::Tuple, GV::Struct(_, _) => Kind::Struct, _ => Kind::Seq } }
pub open spec fn gnames(g: GV) -> Seq<Seq<char>> { match g { GV::Struct(ns, _) => ns, _ => Seq::empty() } }
pub open spec fn gelems(g: GV) -> Seq<GV> {
    match g { GV::FixedSeq(es) => es, GV::VarSeq(es) => es, GV::Tuple(es) => es, GV::Struct(_, es) => es, _ => Seq::empty() }
}
pub open spec fn gpfx(g: GV) -> Seq<u8> { match g { GV::VarSeq(es) => uint_enc(es.len()), _ => Seq::empty() } }
pub open spec fn has_elems(g: GV) -> bool { g is FixedSeq || g is VarSeq || g is Tuple || g is Struct }
/// how far the elements of g were coded, beginning at t0
pub open spec fn run_to<'a>(g: GV, n: int, t0: Seq<StackFrame<'a>>) -> Run<'a> { run_seq(gkind(g), gnames(g), gelems(g), n as nat, t0) }
/// where it fails, it fails
pub proof fn lemma_run_fail<'a>(k: Kind, ns: Seq<Seq<char>>, es: Seq<GV>, n: nat, m: nat, s: Seq<StackFrame<'a>>)
    requires n <= m <= es.len(), !(run_seq(k, ns, es, n, s).tr is Ok),
    ensures run_seq(k, ns, es, m, s) == run_seq(k, ns, es, n, s),
    decreases m,
{ reveal_with_fuel(run_seq, 2); if n < m { lemma_run_fail(k, ns, es, n, (m - 1) as nat, s); } }
pub open spec fn step_to<'a>(g: GV, n: int, r: Run<'a>) -> Run<'a> {
    match r.tr { Tr::Ok(t) => match t_elem(gkind(g), gnames(g)[n], t) { Tr::Ok(u) => pre(r.b, run(gelems(g)[n], u)), tr => Run { tr, b: r.b } }, tr => r }
}
pub proof fn lemma_run_begin<'a>(g: GV, s: Seq<StackFrame<'a>>)
    requires has_elems(g),
    ensures begun(g, s) matches Tr::Ok(t) ==> t.len() > 0 && run_to(g, 0, t) == (Run { tr: Tr::Ok(t), b: Seq::<u8>::empty() }),
        !(begun(g, s) is Ok) ==> run(g, s).tr == begun(g, s),
{ reveal(run); reveal_with_fuel(run_seq, 2); }
pub proof fn lemma_run_to<'a>(g: GV, n: int, s: Seq<StackFrame<'a>>, t0: Seq<StackFrame<'a>>, w: Seq<u8>)
    requires has_elems(g), 0 <= n < gelems(g).len(), begun(g, s) == Tr::Ok(t0),
    ensures run_to(g, n + 1, t0) == step_to(g, n, run_to(g, n, t0)),
        !(run_to(g, n + 1, t0).tr is Ok) ==> run(g, s).tr == run_to(g, n + 1, t0).tr,
        run_to(g, n, t0).tr matches Tr::Ok(t) ==> (t_elem(gkind(g), gnames(g)[n], t) matches Tr::Ok(u) ==> w + run_to(g, n + 1, t0).b == (w + run_to(g, n, t0).b) + run(gelems(g)[n], u).b),
{
    if let Tr::Ok(t) = run_to(g, n, t0).tr { if let Tr::Ok(u) = t_elem(gkind(g), gnames(g)[n], t) { let x = run(gelems(g)[n], u).b; let y = run_to(g, n, t0).b; assert(w + (y + x) =~= (w + y) + x); } }
    reveal(run); reveal_with_fuel(run_seq, 2);
    if !(run_to(g, n + 1, t0).tr is Ok) { lemma_run_fail(gkind(g), gnames(g), gelems(g), (n + 1) as nat, gelems(g).len(), t0); }
}
pub proof fn lemma_run_finish<'a>(g: GV, s: Seq<StackFrame<'a>>, t0: Seq<StackFrame<'a>>, w: Seq<u8>)
    requires has_elems(g), begun(g, s) == Tr::Ok(t0),
    ensures run_to(g, gelems(g).len() as int, t0).tr matches Tr::Ok(u) ==> run(g, s).tr == t_finish(gkind(g), u) && w + run(g, s).b == (w + gpfx(g)) + run_to(g, gelems(g).len() as int, t0).b,
{
    reveal(run); reveal(run_seq);
    let r = run_to(g, gelems(g).len() as int, t0);
    assert(w + (gpfx(g) + r.b) =~= (w + gpfx(g)) + r.b);
    assert(run(g, s) == finish(gkind(g), gpfx(g), r)) by {
        match g { GV::FixedSeq(es) => {}, GV::VarSeq(es) => {}, GV::Tuple(es) => {}, GV::Struct(ns, es) => {}, _ => {} }
    }
}
pub proof fn lemma_run_leaf<'a>(g: GV, s: Seq<StackFrame<'a>>, w: Seq<u8>)
    requires !has_elems(g),
    ensures
        g matches GV::Some(x) ==> (e_some(s) matches Tr::Ok(t) ==> t.len() > 0 && w + run(g, s).b == (w + seq![1u8]) + run(*x, t).b),
        g matches GV::Enum(o, n, x) ==> (e_enum(s, o as usize, n) matches Tr::Ok(t) ==> t.len() > 0 && (o <= usize::MAX ==> w + run(g, s).b == (w + ord_enc(o, nvars(s))) + run(*x, t).b)),
        run(g, s) == match g {
        GV::Scalar(t, x) => Run { tr: if scalar_ok(t, x) { t_code(s, Schema::Scalar(t)) } else { Tr::Refuse(ErrorKind::SchemaNonConformance) }, b: scalar_enc(t, x) },
        GV::Str(x) => Run { tr: if encode_utf8(x).len() <= usize::MAX { t_code(s, Schema::Str) } else { Tr::Refuse(ErrorKind::SchemaNonConformance) }, b: str_enc(x) },
        GV::Bytes(x) => Run { tr: if x.len() <= usize::MAX { t_code(s, Schema::Bytes) } else { Tr::Refuse(ErrorKind::SchemaNonConformance) }, b: bytes_enc(x) },
        GV::Unit => Run { tr: t_code(s, Schema::Unit), b: Seq::empty() },
        GV::None => Run { tr: e_none(s), b: seq![0u8] },
        GV::Some(x) => match e_some(s) { Tr::Ok(t) => pre(seq![1u8], run(*x, t)), tr => Run { tr, b: Seq::empty() } },
        GV::Enum(o, n, x) => match (if o <= usize::MAX { e_enum(s, o as usize, n) } else { Tr::Refuse(ErrorKind::SchemaNonConformance) }) {
            Tr::Ok(t) => pre(ord_enc(o, nvars(s)), run(*x, t)),
            tr => Run { tr, b: Seq::empty() },
        },
        _ => arbitrary(),
    },
{
    reveal(run);
    match g {
        GV::Some(x) => if let Tr::Ok(t) = e_some(s) { let y = run(*x, t).b; assert(w + (seq![1u8] + y) =~= (w + seq![1u8]) + y); },
        GV::Enum(o, n, x) => if let Tr::Ok(t) = e_enum(s, o as usize, n) { let y = run(*x, t).b; let a = ord_enc(o, nvars(s)); assert(w + (a + y) =~= (w + a) + y); },
        _ => {}
    }
}
/// its parts
pub open spec fn part(v: Value, i: int) -> Value {
    match v { Value::FixedLenSeq(x) => x@[i], Value::VarLenSeq(x) => x@[i], Value::Tuple(x) => x@[i], Value::Struct(x) => x@[i].value, _ => v }
}
pub open spec fn parts(v: Value) -> nat {
    match v { Value::FixedLenSeq(x) => x@.len(), Value::VarLenSeq(x) => x@.len(), Value::Tuple(x) => x@.len(), Value::Struct(x) => x@.len(), _ => 0 }
}
pub open spec fn elems_are(v: Value, s: Seq<Value>) -> bool {
    match v { Value::FixedLenSeq(x) => x@ == s, Value::VarLenSeq(x) => x@ == s, Value::Tuple(x) => x@ == s, _ => false }
}
pub open spec fn fields_are(v: Value, s: Seq<StructValueField>) -> bool { v matches Value::Struct(x) && x@ == s }
pub proof fn lemma_gelem(v: Value, i: int)
    requires 0 <= i < parts(v),
    ensures gelems(gv(v))[i] == gv(part(v, i)),
        v matches Value::Struct(x) ==> gnames(gv(v))[i] == x@[i].name@,
{
    reveal(gv);
    match v {
        Value::FixedLenSeq(x) => lemma_gvs(x, x@.len()),
        Value::VarLenSeq(x) => lemma_gvs(x, x@.len()),
        Value::Tuple(x) => lemma_gvs(x, x@.len()),
        Value::Struct(x) => lemma_gvf(x, x@.len()),
        _ => {}
    }
}
pub proof fn lemma_gv(v: Value)
    ensures
        gelems(gv(v)).len() == parts(v), parts(v) <= usize::MAX,
        match v {
            Value::FixedLenSeq(x) => gv(v) is FixedSeq, Value::VarLenSeq(x) => gv(v) is VarSeq, Value::Tuple(x) => gv(v) is Tuple, Value::Struct(x) => gv(v) is Struct && gnames(gv(v)).len() == parts(v),
            Value::Scalar(x) => gv(v) == gscalar(x), Value::Str(x) => gv(v) == GV::Str(x@) && encode_utf8(x@).len() <= usize::MAX, Value::Bytes(x) => gv(v) == GV::Bytes(x@) && x@.len() <= usize::MAX, Value::Unit => gv(v) == GV::Unit,
            Value::Option(None) => gv(v) == GV::None,
            Value::Option(Some(x)) => gv(v) is Some && *gv(v)->Some_0 == gv(*x),
            Value::Enum(e) => gv(v) is Enum && gv(v)->Enum_0 == e.variant_ord && gv(v)->Enum_1 == e.variant_name@ && *gv(v)->Enum_2 == gv(*e.value),
        },
{
    reveal(gv);
    match v {
        Value::FixedLenSeq(x) => { assert(x.len() <= usize::MAX); lemma_gvs(x, x@.len()); },
        Value::VarLenSeq(x) => { assert(x.len() <= usize::MAX); lemma_gvs(x, x@.len()); },
        Value::Tuple(x) => { assert(x.len() <= usize::MAX); lemma_gvs(x, x@.len()); },
        Value::Struct(x) => { assert(x.len() <= usize::MAX); lemma_gvf(x, x@.len()); },
        Value::Str(x) => axiom_string_len(x),
        Value::Bytes(x) => axiom_vec_len(&x),
        _ => {}
    }
}
