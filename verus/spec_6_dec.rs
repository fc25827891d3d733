//@file C08,C05,C09,C10
// What a decoder may make of some bytes: reading is a function of the value
// looked for, agrees with what FORMAT.txt says is written, and finds at most one.

/// the bytes taken, where that is what they give
pub open spec fn hit<T>(d: Rd<T>, x: T) -> Option<nat> { match d { Rd::Val(y, k) => if y == x { Some(k) } else { None }, _ => None } }
pub open spec fn scalar_dec(t: ScalarType, x: int, b: Seq<u8>) -> Option<nat> {
    if !scalar_ok(t, x) { None } else {
        match t {
            ScalarType::U8 => hit(le_rd(b, 1), x as nat), ScalarType::U16 => hit(le_rd(b, 2), x as nat),
            ScalarType::I8 => hit(le_rd(b, 1), twos(x, 0x100)), ScalarType::I16 => hit(le_rd(b, 2), twos(x, 0x1_0000)),
            ScalarType::U32 => hit(uint_rd(b, u32::MAX as nat), x as nat), ScalarType::U64 => hit(uint_rd(b, u64::MAX as nat), x as nat),
            ScalarType::U128 => hit(uint_rd(b, u128::MAX as nat), x as nat),
            ScalarType::I32 => hit(sint_rd(b, i32::MIN as int, i32::MAX as int), x), ScalarType::I64 => hit(sint_rd(b, i64::MIN as int, i64::MAX as int), x),
            ScalarType::I128 => hit(sint_rd(b, i128::MIN as int, i128::MAX as int), x),
            ScalarType::F32 => hit(le_rd(b, 4), x as nat), ScalarType::F64 => hit(le_rd(b, 8), x as nat),
            ScalarType::Char => hit(char_rd(b), x as nat), ScalarType::Bool => hit(flag_rd(b), x == 1),
        }
    }
}
/// the number of bytes that the value takes, where these begin with one of its messages
#[verifier::opaque]
pub open spec fn dec(g: GV, p: Seq<Schema>, b: Seq<u8>) -> Option<nat>
    decreases g, 0nat,
{
    if p.len() == 0 { None } else {
        match (g, p.last()) {
            (GV::Scalar(t, x), Schema::Scalar(u)) => if t == u { scalar_dec(t, x, b) } else { None },
            (GV::Str(x), Schema::Str) => hit(str_rd(b), encode_utf8(x)),
            (GV::Bytes(x), Schema::Bytes) => hit(bytes_rd(b), x),
            (GV::Unit, Schema::Unit) => Some(0),
            (GV::None, Schema::Option(_)) => hit(flag_rd(b), false),
            (GV::Some(x), Schema::Option(c)) =>
                if hit(flag_rd(b), true) is Some && child(p, *c) is Some { plus(1, dec(*x, child(p, *c)->Some_0, b.skip(1))) } else { None },
            (GV::FixedSeq(es), Schema::Seq(q)) => if q.len is Some && q.len->Some_0 as nat == es.len() { dec_seq(es, es.len(), p, b) } else { None },
            (GV::VarSeq(es), Schema::Seq(q)) =>
                if q.len is None && hit(len_rd(b), es.len()) is Some { let k = rd_len(len_rd(b)) as nat; plus(k, dec_seq(es, es.len(), p, b.skip(k as int))) } else { None },
            (GV::Tuple(es), Schema::Tuple(ts)) => if es.len() == ts@.len() { dec_seq(es, es.len(), p, b) } else { None },
            (GV::Struct(ns, es), Schema::Struct(fs)) =>
                if es.len() == fs@.len() && ns == fnames(fs@) { dec_seq(es, es.len(), p, b) } else { None },
            (GV::Enum(o, n, x), Schema::Enum(vs)) =>
                if hit(ord_rd(b, vs@.len()), o) is Some && o < vs@.len() && n == vs@[o as int].name@ && child(p, vs@[o as int].inner) is Some {
                    let k = rd_len(ord_rd(b, vs@.len())) as nat;
                    plus(k, dec(*x, child(p, vs@[o as int].inner)->Some_0, b.skip(k as int)))
                } else { None },
            _ => None,
        }
    }
}
pub open spec fn plus(k: nat, d: Option<nat>) -> Option<nat> { match d { Some(j) => Some(k + j), None => None } }
pub open spec fn fnames(fs: Seq<StructSchemaField>) -> Seq<Seq<char>> { Seq::new(fs.len(), |i: int| fs[i].name@) }
/// the first n elements
#[verifier::opaque]
pub open spec fn dec_seq(es: Seq<GV>, n: nat, p: Seq<Schema>, b: Seq<u8>) -> Option<nat>
    decreases es, n,
{
    if n == 0 || n > es.len() { Some(0) }
    else {
        match dec_seq(es, (n - 1) as nat, p, b) {
            Some(k) => if child(p, nth(p.last(), n - 1)) is Some { plus(k, dec(es[n - 1], child(p, nth(p.last(), n - 1))->Some_0, b.skip(k as int))) } else { None },
            None => None,
        }
    }
}

// ---- no more bytes are taken than there are
pub proof fn lemma_rd_used(b: Seq<u8>, n: nat)
    ensures
        len_rd(b) matches Rd::Val(x, k) ==> k <= b.len() && x <= usize::MAX,
        bytes_rd(b) matches Rd::Val(x, k) ==> k <= b.len() && x.len() <= usize::MAX,
        str_rd(b) matches Rd::Val(x, k) ==> k <= b.len() && x.len() <= usize::MAX && valid_utf8(x),
        ord_rd(b, n) matches Rd::Val(x, k) ==> k <= b.len() && x < n,
        flag_rd(b) matches Rd::Val(x, k) ==> k == 1 && k <= b.len(),
        uint_dec(b) matches Dec::Val(x, k) ==> k <= b.len(),
        sint_dec(b) matches Dec::Val(x, k) ==> k <= b.len(),
{
    lemma_uvar_used(b, 0, 128);
    if b.len() > 0 { lemma_uvar_used(b.skip(1), 6, 127); }
}
pub proof fn lemma_scalar_used(t: ScalarType, x: int, b: Seq<u8>)
    ensures scalar_dec(t, x, b) matches Some(k) ==> k <= b.len(),
{ lemma_rd_used(b, 0); }
//@ C05,C08
pub proof fn lemma_dec_used(g: GV, p: Seq<Schema>, b: Seq<u8>)
    ensures dec(g, p, b) matches Some(k) ==> k <= b.len(),
    decreases g, 0nat,
{
    reveal_with_fuel(dec, 2); reveal_with_fuel(dec_seq, 2);
    if p.len() > 0 {
        lemma_rd_used(b, 0);
        match (g, p.last()) {
            (GV::Scalar(t, x), _) => lemma_scalar_used(t, x, b),
            (GV::Some(x), Schema::Option(c)) => if child(p, *c) is Some { lemma_dec_used(*x, child(p, *c)->Some_0, b.skip(1)); },
            (GV::FixedSeq(es), _) => lemma_dec_seq_used(es, es.len(), p, b),
            (GV::VarSeq(es), _) => if hit(len_rd(b), es.len()) is Some { lemma_dec_seq_used(es, es.len(), p, b.skip(rd_len(len_rd(b)))); },
            (GV::Tuple(es), _) => lemma_dec_seq_used(es, es.len(), p, b),
            (GV::Struct(ns, es), _) => lemma_dec_seq_used(es, es.len(), p, b),
            (GV::Enum(o, n, x), Schema::Enum(vs)) => { lemma_rd_used(b, vs@.len()); if hit(ord_rd(b, vs@.len()), o) is Some && child(p, vs@[o as int].inner) is Some {
                lemma_dec_used(*x, child(p, vs@[o as int].inner)->Some_0, b.skip(rd_len(ord_rd(b, vs@.len())))); } },
            _ => {}
        }
    }
}
pub proof fn lemma_dec_seq_used(es: Seq<GV>, n: nat, p: Seq<Schema>, b: Seq<u8>)
    ensures dec_seq(es, n, p, b) matches Some(k) ==> k <= b.len(),
    decreases es, n,
{
    reveal_with_fuel(dec, 2); reveal_with_fuel(dec_seq, 2);
    if n > 0 && n <= es.len() {
        lemma_dec_seq_used(es, (n - 1) as nat, p, b);
        if let Some(k) = dec_seq(es, (n - 1) as nat, p, b) {
            if let Some(q) = child(p, nth(p.last(), n - 1)) { lemma_dec_used(es[n - 1], q, b.skip(k as int)); }
        }
    }
}

// ---- bytes give one value at most
pub proof fn lemma_scalar_one(t: ScalarType, x: int, y: int, b: Seq<u8>)
    ensures scalar_dec(t, x, b) is Some && scalar_dec(t, y, b) is Some ==> x == y,
{}
//@ C05,C08
pub proof fn lemma_dec_one(g: GV, h: GV, p: Seq<Schema>, b: Seq<u8>)
    requires dec(g, p, b) is Some, dec(h, p, b) is Some,
    ensures g == h,
    decreases g, 0nat,
{
    reveal_with_fuel(dec, 2); reveal_with_fuel(dec_seq, 2);
    match (g, h, p.last()) {
        (GV::Scalar(t, x), GV::Scalar(u, y), _) => lemma_scalar_one(t, x, y, b),
        (GV::Str(x), GV::Str(y), _) => { encode_utf8_decode_utf8(x); encode_utf8_decode_utf8(y); },
        (GV::Some(x), GV::Some(y), Schema::Option(c)) => { lemma_dec_one(*x, *y, child(p, *c)->Some_0, b.skip(1)); assert(x == y); },
        (GV::FixedSeq(x), GV::FixedSeq(y), _) => { lemma_dec_seq_one(x, y, x.len(), p, b); assert(x =~= y); },
        (GV::VarSeq(x), GV::VarSeq(y), _) => { lemma_dec_seq_one(x, y, x.len(), p, b.skip(rd_len(len_rd(b)))); assert(x =~= y); },
        (GV::Tuple(x), GV::Tuple(y), _) => { lemma_dec_seq_one(x, y, x.len(), p, b); assert(x =~= y); },
        (GV::Struct(_, x), GV::Struct(_, y), _) => { lemma_dec_seq_one(x, y, x.len(), p, b); assert(x =~= y); },
        (GV::Enum(o, n, x), GV::Enum(q, m, y), Schema::Enum(vs)) => { lemma_dec_one(*x, *y, child(p, vs@[o as int].inner)->Some_0, b.skip(rd_len(ord_rd(b, vs@.len())))); assert(x == y); },
        _ => {}
    }
}
pub proof fn lemma_dec_seq_one(es: Seq<GV>, fs: Seq<GV>, n: nat, p: Seq<Schema>, b: Seq<u8>)
    requires dec_seq(es, n, p, b) is Some, dec_seq(fs, n, p, b) is Some, n <= es.len(), n <= fs.len(),
    ensures dec_seq(es, n, p, b) == dec_seq(fs, n, p, b), forall|i: int| 0 <= i < n ==> es[i] == fs[i],
    decreases es, n,
{
    reveal_with_fuel(dec, 2); reveal_with_fuel(dec_seq, 2);
    if n > 0 {
        lemma_dec_seq_one(es, fs, (n - 1) as nat, p, b);
        let k = dec_seq(es, (n - 1) as nat, p, b)->Some_0;
        lemma_dec_one(es[n - 1], fs[n - 1], child(p, nth(p.last(), n - 1))->Some_0, b.skip(k as int));
    }
}
/// fewer elements of the same
pub proof fn lemma_dec_seq_less(es: Seq<GV>, m: nat, n: nat, p: Seq<Schema>, b: Seq<u8>)
    requires dec_seq(es, n, p, b) is Some, m <= n <= es.len(),
    ensures dec_seq(es, m, p, b) is Some,
    decreases n,
{ reveal_with_fuel(dec, 2); reveal_with_fuel(dec_seq, 2); if m < n { lemma_dec_seq_less(es, m, (n - 1) as nat, p, b); } }
pub proof fn lemma_dec_seq_same(es: Seq<GV>, fs: Seq<GV>, n: nat, p: Seq<Schema>, b: Seq<u8>)
    requires n <= es.len(), n <= fs.len(), forall|i: int| 0 <= i < n ==> es[i] == fs[i],
    ensures dec_seq(es, n, p, b) == dec_seq(fs, n, p, b),
    decreases n,
{ reveal_with_fuel(dec, 2); reveal_with_fuel(dec_seq, 2); if n > 0 { lemma_dec_seq_same(es, fs, (n - 1) as nat, p, b); } }

// ---- what is read conforms
//@ C05,C08,C09
pub proof fn lemma_dec_conf(g: GV, p: Seq<Schema>, b: Seq<u8>)
    requires dec(g, p, b) is Some,
    ensures conf(g, p),
    decreases g, 0nat,
{
    reveal_with_fuel(dec, 2); reveal_with_fuel(dec_seq, 2);
    lemma_rd_used(b, 0);
    let len: usize = if g is VarSeq || g is FixedSeq { gelems(g).len() as usize } else { 0 };
    match (g, p.last()) {
        (GV::Some(x), Schema::Option(c)) => lemma_dec_conf(*x, child(p, *c)->Some_0, b.skip(1)),
        (GV::FixedSeq(es), _) => { lemma_dec_seq_conf(Kind::Seq, gnames(g), es, es.len(), p, b, len); lemma_conf_elems(g, p, len); },
        (GV::VarSeq(es), _) => { lemma_dec_seq_conf(Kind::Seq, gnames(g), es, es.len(), p, b.skip(rd_len(len_rd(b))), len); lemma_conf_elems(g, p, len); },
        (GV::Tuple(es), _) => { lemma_dec_seq_conf(Kind::Tuple, gnames(g), es, es.len(), p, b, len); lemma_conf_elems(g, p, len); },
        (GV::Struct(ns, es), Schema::Struct(fs)) => { lemma_dec_seq_conf(Kind::Struct, gnames(g), es, es.len(), p, b, len); lemma_conf_elems(g, p, len); },
        (GV::Enum(o, n, x), Schema::Enum(vs)) => lemma_dec_conf(*x, child(p, vs@[o as int].inner)->Some_0, b.skip(rd_len(ord_rd(b, vs@.len())))),
        _ => {}
    }
}
pub proof fn lemma_dec_seq_conf(k: Kind, ns: Seq<Seq<char>>, es: Seq<GV>, n: nat, p: Seq<Schema>, b: Seq<u8>, len: usize)
    requires dec_seq(es, n, p, b) is Some, n <= es.len(), n <= arity(p.last(), len), k is Struct ==> p.last() is Struct && ns == fnames(p.last()->Struct_0@),
    ensures all_conf(k, ns, es, n as int, p, len),
    decreases es, n,
{
    reveal_with_fuel(dec, 2); reveal_with_fuel(dec_seq, 2);
    if n > 0 {
        lemma_dec_seq_conf(k, ns, es, (n - 1) as nat, p, b, len);
        let kk = dec_seq(es, (n - 1) as nat, p, b)->Some_0;
        lemma_dec_conf(es[n - 1], child(p, nth(p.last(), n - 1))->Some_0, b.skip(kk as int));
        assert(elem_conf(k, ns, es, n - 1, p, len));
    }
}

// ---- what was written is read back
pub proof fn lemma_le_rt(x: nat, k: nat, t: Seq<u8>)
    requires x < pow256(k),
    ensures le_rd(le(x, k) + t, k) == Rd::Val(x, k),
{
    lemma_le_len(x, k);
    lemma_le_val(x, k);
    assert((le(x, k) + t).take(k as int) =~= le(x, k));
}
pub proof fn lemma_scalar_rt(t: ScalarType, x: int, r: Seq<u8>)
    requires scalar_ok(t, x),
    ensures scalar_dec(t, x, scalar_enc(t, x) + r) == Some(scalar_enc(t, x).len()),
{
    reveal_with_fuel(pow256, 9);
    match t {
        ScalarType::U8 => { lemma_le_rt(x as nat, 1, r); lemma_le_len(x as nat, 1); },
        ScalarType::U16 => { lemma_le_rt(x as nat, 2, r); lemma_le_len(x as nat, 2); },
        ScalarType::I8 => { lemma_le_rt(twos(x, 0x100), 1, r); lemma_le_len(twos(x, 0x100), 1); },
        ScalarType::I16 => { lemma_le_rt(twos(x, 0x1_0000), 2, r); lemma_le_len(twos(x, 0x1_0000), 2); },
        ScalarType::F32 => { lemma_le_rt(x as nat, 4, r); lemma_le_len(x as nat, 4); },
        ScalarType::F64 => { lemma_le_rt(x as nat, 8, r); lemma_le_len(x as nat, 8); },
        ScalarType::I32 | ScalarType::I64 | ScalarType::I128 => lemma_sint_roundtrip(x, r),
        ScalarType::Bool => {},
        _ => lemma_uint_roundtrip(x as nat, r),
    }
}
pub proof fn lemma_ord_rt(o: nat, n: nat, t: Seq<u8>)
    requires o < n,
    ensures ord_rd(ord_enc(o, n) + t, n) == Rd::Val(o, ord_enc(o, n).len()), (ord_enc(o, n) + t).skip(ord_enc(o, n).len() as int) == t,
{
    lemma_ord_pow((n - 1) as nat);
    lemma_le_rt(o, ord_len((n - 1) as nat), t);
    lemma_le_len(o, ord_len((n - 1) as nat));
    assert((ord_enc(o, n) + t).skip(ord_enc(o, n).len() as int) =~= t);
}
pub proof fn lemma_len_rt(n: nat, t: Seq<u8>)
    requires n <= usize::MAX,
    ensures len_rd(uint_enc(n) + t) == Rd::Val(n, uint_enc(n).len()), (uint_enc(n) + t).skip(uint_enc(n).len() as int) == t,
{ lemma_uint_roundtrip(n, t); }
pub proof fn lemma_bytes_rt(x: Seq<u8>, t: Seq<u8>)
    requires x.len() <= usize::MAX,
    ensures bytes_rd(bytes_enc(x) + t) == Rd::Val(x, bytes_enc(x).len()),
{
    lemma_len_rt(x.len(), x + t);
    let b = bytes_enc(x) + t;
    assert(b =~= uint_enc(x.len()) + (x + t));
    let k = uint_enc(x.len()).len();
    assert(b.subrange(k as int, (k + x.len()) as int) =~= x);
}
#[verifier::spinoff_prover] #[verifier::rlimit(80)]
pub proof fn lemma_rt_leaf(g: GV, p: Seq<Schema>, t: Seq<u8>)
    requires conf(g, p), !has_elems(g), !(g is Some), !(g is Enum),
    ensures dec(g, p, enc(g, p) + t) == Some(enc(g, p).len()),
{
    hide(uint_enc); hide(uint_dec); hide(scalar_dec); hide(scalar_enc); hide(scalar_ok); hide(encode_utf8); hide(valid_utf8); hide(bytes_enc); hide(bytes_rd); hide(child);
    reveal(dec);
    let b = enc(g, p) + t;
    match (g, p.last()) {
        (GV::Scalar(u, x), _) => lemma_scalar_rt(u, x, t),
        (GV::Str(x), _) => { lemma_bytes_rt(encode_utf8(x), t); encode_utf8_valid_utf8(x); assert(str_enc(x) == bytes_enc(encode_utf8(x))) by { reveal(bytes_enc); } },
        (GV::Bytes(x), _) => lemma_bytes_rt(x, t),
        _ => {},
    }
}
//@ C08,C02,C03
#[verifier::spinoff_prover] #[verifier::rlimit(80)]
pub proof fn lemma_rt(g: GV, p: Seq<Schema>, t: Seq<u8>)
    requires conf(g, p),
    ensures dec(g, p, enc(g, p) + t) == Some(enc(g, p).len()),
    decreases g, 0nat,
{
    hide(uint_enc); hide(uint_dec); hide(scalar_dec); hide(scalar_enc); hide(scalar_ok); hide(encode_utf8); hide(valid_utf8); hide(bytes_enc); hide(bytes_rd); hide(child); hide(enc_seq);
    let b = enc(g, p) + t;
    match (g, p.last()) {
        (GV::Some(x), Schema::Option(c)) => {
            reveal(dec);
            let q = child(p, *c)->Some_0;
            lemma_rt(*x, q, t);
            assert(b.skip(1) =~= enc(*x, q) + t);
        },
        (GV::Enum(o, n, x), Schema::Enum(vs)) => {
            reveal(dec);
            let q = child(p, vs@[o as int].inner)->Some_0;
            let h = ord_enc(o, vs@.len());
            lemma_rt(*x, q, t);
            lemma_ord_rt(o, vs@.len(), enc(*x, q) + t);
            assert(b =~= h + (enc(*x, q) + t));
        },
        _ => { if has_elems(g) { lemma_rt_elems(g, p, t); } else { lemma_rt_leaf(g, p, t); } },
    }
}
#[verifier::spinoff_prover] #[verifier::rlimit(80)]
pub proof fn lemma_rt_elems(g: GV, p: Seq<Schema>, t: Seq<u8>)
    requires conf(g, p), has_elems(g),
    ensures dec(g, p, enc(g, p) + t) == Some(enc(g, p).len()),
    decreases gelems(g), gelems(g).len() + 1,
{
    reveal(dec); reveal(dec_seq);
    let b = enc(g, p) + t;
    let es = gelems(g);
    let len: usize = if gkind(g) is Seq { es.len() as usize } else { 0 };
    lemma_conf_elems(g, p, len);
    lemma_rt_seq(gkind(g), gnames(g), es, es.len(), p, t, len);
    if g is VarSeq {
        lemma_len_rt(es.len(), enc_seq(es, es.len(), p) + t);
        assert(b =~= uint_enc(es.len()) + (enc_seq(es, es.len(), p) + t));
    }
    if g is Struct {
        let fs = p.last()->Struct_0@;
        assert forall|i: int| 0 <= i < es.len() implies gnames(g)[i] == fs[i].name@ by { assert(elem_conf(gkind(g), gnames(g), es, i, p, len)); }
        assert(gnames(g) =~= fnames(fs));
    }
}
#[verifier::spinoff_prover] #[verifier::rlimit(80)]
pub proof fn lemma_rt_seq(k: Kind, ns: Seq<Seq<char>>, es: Seq<GV>, n: nat, p: Seq<Schema>, t: Seq<u8>, len: usize)
    requires all_conf(k, ns, es, n as int, p, len), n <= es.len(),
    ensures dec_seq(es, n, p, enc_seq(es, n, p) + t) == Some(enc_seq(es, n, p).len()),
    decreases es, n,
{
    reveal_with_fuel(dec, 2); reveal_with_fuel(dec_seq, 2); reveal_with_fuel(enc_seq, 2);
    if n > 0 {
        let m = (n - 1) as nat;
        assert(elem_conf(k, ns, es, m as int, p, len));
        let q = child(p, nth(p.last(), m as int))->Some_0;
        let e = enc(es[m as int], q);
        lemma_all_less(k, ns, es, m as int, n as int, p, len);
        lemma_rt_seq(k, ns, es, m, p, e + t, len);
        lemma_rt(es[m as int], q, t);
        let a = enc_seq(es, m, p);
        assert(enc_seq(es, n, p) + t =~= a + (e + t));
        assert((a + (e + t)).skip(a.len() as int) =~= e + t);
    }
}

// ---- decoding a whole value, call by call
/// nothing begins with these bytes
#[verifier::opaque]
pub open spec fn nothing(p: Seq<Schema>, b: Seq<u8>) -> bool { forall|g: GV| #![trigger dec(g, p, b)] dec(g, p, b) is None }
/// how many elements, and after how many bytes
pub open spec fn body(s: Schema, b: Seq<u8>) -> Option<(nat, nat)> {
    match s {
        Schema::Seq(q) => match q.len { Some(n) => Some((n as nat, 0)), None => match len_rd(b) { Rd::Val(n, k) => Some((n, k)), _ => None } },
        Schema::Tuple(ts) => Some((ts@.len(), 0)),
        Schema::Struct(fs) => Some((fs@.len(), 0)),
        _ => None,
    }
}
pub open spec fn body_of(s: Schema, b: Seq<u8>) -> Option<(nat, nat)> {
    match s {
        Schema::Seq(q) => match q.len { Some(n) => Some((n as nat, 0)), None => match len_rd(b) { Rd::Val(n, k) => Some((n, k)), _ => None } },
        Schema::Tuple(ts) => Some((ts@.len(), 0)),
        Schema::Struct(fs) => Some((fs@.len(), 0)),
        _ => None,
    }
}
/// the value is of the kind that the schema asks for
pub open spec fn same_shape(g: GV, s: Schema) -> bool {
    match g {
        GV::FixedSeq(_) => s is Seq && s->Seq_0.len is Some, GV::VarSeq(_) => s is Seq && s->Seq_0.len is None,
        GV::Tuple(_) => s is Tuple, GV::Struct(ns, _) => s is Struct && ns == fnames(s->Struct_0@), _ => false,
    }
}
pub proof fn lemma_body(p: Seq<Schema>, b: Seq<u8>)
    requires p.len() > 0,
    ensures body(p.last(), b) is Some ==> lemma_body_ens(p, b),
{ if body(p.last(), b) is Some { lemma_body_some(p, b); } }
pub open spec fn lemma_body_ens(p: Seq<Schema>, b: Seq<u8>) -> bool {
    &&& forall|g: GV| #![trigger dec(g, p, b)] ({
            let (n, k) = body(p.last(), b)->Some_0;
            &&& dec(g, p, b) is Some ==> same_shape(g, p.last()) && gelems(g).len() == n
            &&& same_shape(g, p.last()) && gelems(g).len() == n ==> dec(g, p, b) == plus(k, dec_seq(gelems(g), n, p, b.skip(k as int)))
        })
    &&& body(p.last(), b)->Some_0.1 <= b.len() && body(p.last(), b)->Some_0.0 <= usize::MAX
    &&& dec_seq(Seq::empty(), 0, p, b.skip(body(p.last(), b)->Some_0.1 as int)) == Some(0nat)
    &&& b.skip(body(p.last(), b)->Some_0.1 as int).skip(0) == b.skip(body(p.last(), b)->Some_0.1 as int)
}
pub proof fn lemma_body_is(s: Schema, b: Seq<u8>)
    ensures body(s, b) == body_of(s, b),
{}
pub proof fn lemma_idle<'a>(s: Seq<StackFrame<'a>>)
    ensures stable(s) && s.len() > 0 && !needs(s) ==> !(top_schema(s) is Recurse),
{ if s.len() > 0 { assert(s.last() == s[s.len() - 1]); } }
pub proof fn lemma_body_some(p: Seq<Schema>, b: Seq<u8>)
    requires p.len() > 0, body(p.last(), b) is Some,
    ensures lemma_body_ens(p, b), forall|g: GV| #![trigger dec(g, p, b)] ({
            let (n, k) = body(p.last(), b)->Some_0;
            &&& dec(g, p, b) is Some ==> same_shape(g, p.last()) && gelems(g).len() == n
            &&& same_shape(g, p.last()) && gelems(g).len() == n ==> dec(g, p, b) == plus(k, dec_seq(gelems(g), n, p, b.skip(k as int)))
        }),
        body(p.last(), b) == body_of(p.last(), b), body(p.last(), b)->Some_0.1 <= b.len(), body(p.last(), b)->Some_0.0 <= usize::MAX,
        dec_seq(Seq::empty(), 0, p, b.skip(body(p.last(), b)->Some_0.1 as int)) == Some(0nat),
{
    let (n, k) = body(p.last(), b)->Some_0;
    lemma_rd_used(b, 0);
    reveal(dec); reveal(dec_seq);
    assert(b.skip(k as int).skip(0) =~= b.skip(k as int));
    match p.last() { Schema::Tuple(ts) => assert(ts.len() <= usize::MAX), Schema::Struct(fs) => assert(fs.len() <= usize::MAX), _ => {} }
    if k == 0 { assert(b.skip(0) =~= b); }
    assert forall|g: GV| #![trigger dec(g, p, b)] same_shape(g, p.last()) && gelems(g).len() == n implies dec(g, p, b) == plus(k, dec_seq(gelems(g), n, p, b.skip(k as int))) by {
        if let Schema::Seq(q) = p.last() {} 
        match g { GV::FixedSeq(es) => { assert(k == 0); }, _ => {} }
    }
}
/// one more element
pub proof fn lemma_dec_push(es: Seq<GV>, g: GV, p: Seq<Schema>, b: Seq<u8>)
    requires dec_seq(es, es.len(), p, b) is Some, child(p, nth(p.last(), es.len() as int)) is Some,
    ensures dec_seq(es.push(g), es.len() + 1, p, b) == plus(dec_seq(es, es.len(), p, b)->Some_0, dec(g, child(p, nth(p.last(), es.len() as int))->Some_0, b.skip(dec_seq(es, es.len(), p, b)->Some_0 as int))),
{
    reveal_with_fuel(dec_seq, 2); reveal_with_fuel(dec, 2);
    lemma_dec_seq_same(es, es.push(g), es.len(), p, b);
}
pub proof fn lemma_dec_step(es: Seq<GV>, g: GV, p: Seq<Schema>, b: Seq<u8>)
    requires dec_seq(es, es.len(), p, b) matches Some(k) && (child(p, nth(p.last(), es.len() as int)) matches Some(q) && dec(g, q, b.skip(k as int)) is Some),
    ensures ({
        let k = dec_seq(es, es.len(), p, b)->Some_0;
        let j = dec(g, child(p, nth(p.last(), es.len() as int))->Some_0, b.skip(k as int))->Some_0;
        dec_seq(es.push(g), es.len() + 1, p, b) == Some((k + j) as nat) && b.skip(k as int).skip(j as int) == b.skip((k + j) as int)
    }),
{
    let k = dec_seq(es, es.len(), p, b)->Some_0;
    let q = child(p, nth(p.last(), es.len() as int))->Some_0;
    lemma_dec_push(es, g, p, b);
    lemma_dec_seq_used(es, es.len(), p, b);
    lemma_dec_used(g, q, b.skip(k as int));
}
pub proof fn lemma_dec_end(es: Seq<GV>, p: Seq<Schema>, b: Seq<u8>)
    requires body(p.last(), b) matches Some((n, k)) && k <= b.len(),
    ensures dec_seq(es, es.len(), p, b.skip(body(p.last(), b)->Some_0.1 as int)) matches Some(j) ==> b.skip(body(p.last(), b)->Some_0.1 as int).skip(j as int) == b.skip((body(p.last(), b)->Some_0.1 + j) as int),
{ lemma_dec_seq_used(es, es.len(), p, b.skip(body(p.last(), b)->Some_0.1 as int)); }
pub proof fn lemma_stuck(es: Seq<GV>, p: Seq<Schema>, b: Seq<u8>)
    requires p.len() > 0, body(p.last(), b) matches Some((n, k)) && es.len() < n && dec_seq(es, es.len(), p, b.skip(k as int)) is Some
        && (child(p, nth(p.last(), es.len() as int)) matches Some(q) ==> nothing(q, b.skip(k as int).skip(dec_seq(es, es.len(), p, b.skip(k as int))->Some_0 as int))),
    ensures nothing(p, b),
{
    let (n, k) = body(p.last(), b)->Some_0;
    let b1 = b.skip(k as int);
    let i = es.len();
    lemma_body(p, b);
    reveal(nothing);
    assert forall|g: GV| #![trigger dec(g, p, b)] dec(g, p, b) is None by {
        if dec(g, p, b) is Some {
            let fs = gelems(g);
            lemma_dec_seq_less(fs, (i + 1) as nat, n, p, b1);
            lemma_dec_seq_less(fs, i, n, p, b1);
            lemma_dec_seq_one(es, fs, i, p, b1);
            reveal_with_fuel(dec_seq, 2); reveal_with_fuel(dec, 2);
            let kk = dec_seq(es, i, p, b1)->Some_0;
            assert(dec(fs[i as int], child(p, nth(p.last(), i as int))->Some_0, b1.skip(kk as int)) is Some);
        }
    }
}
#[verifier::opaque]
pub open spec fn scalar_none(t: ScalarType, b: Seq<u8>) -> bool { forall|x: int| #![trigger scalar_dec(t, x, b)] scalar_dec(t, x, b) is None }
pub proof fn lemma_scalar_none(t: ScalarType, b: Seq<u8>)
    ensures match t {
        ScalarType::U8 | ScalarType::I8 => !(le_rd(b, 1) is Val), ScalarType::U16 | ScalarType::I16 => !(le_rd(b, 2) is Val),
        ScalarType::U32 => !(uint_rd(b, u32::MAX as nat) is Val), ScalarType::U64 => !(uint_rd(b, u64::MAX as nat) is Val), ScalarType::U128 => !(uint_rd(b, u128::MAX as nat) is Val),
        ScalarType::I32 => !(sint_rd(b, i32::MIN as int, i32::MAX as int) is Val), ScalarType::I64 => !(sint_rd(b, i64::MIN as int, i64::MAX as int) is Val), ScalarType::I128 => !(sint_rd(b, i128::MIN as int, i128::MAX as int) is Val),
        ScalarType::F32 => !(le_rd(b, 4) is Val), ScalarType::F64 => !(le_rd(b, 8) is Val), ScalarType::Char => !(char_rd(b) is Val), ScalarType::Bool => !(flag_rd(b) is Val),
    } ==> scalar_none(t, b),
{ reveal(scalar_none); }
pub open spec fn sdec(v: ScalarValue, t: ScalarType, b: Seq<u8>) -> Option<nat> {
    match gscalar(v) { GV::Scalar(u, x) => if t == u { scalar_dec(t, x, b) } else { None }, _ => None }
}
pub open spec fn used<T>(d: Rd<T>, x: T) -> Option<int> { if rd_is(d, x) { Some(rd_len(d)) } else { None } }
/// the bytes that the decoder read it from
pub open spec fn read_as(v: ScalarValue, t: ScalarType, b: Seq<u8>) -> Option<int> {
    match v {
        ScalarValue::U8(n) => if t is U8 { used(le_rd(b, 1), n.bits()) } else { None }, ScalarValue::U16(n) => if t is U16 { used(le_rd(b, 2), n.bits()) } else { None },
        ScalarValue::I8(n) => if t is I8 { used(le_rd(b, 1), n.bits()) } else { None }, ScalarValue::I16(n) => if t is I16 { used(le_rd(b, 2), n.bits()) } else { None },
        ScalarValue::F32(n) => if t is F32 { used(le_rd(b, 4), n.bits()) } else { None }, ScalarValue::F64(n) => if t is F64 { used(le_rd(b, 8), n.bits()) } else { None },
        ScalarValue::U32(n) => if t is U32 { used(uint_rd(b, u32::MAX as nat), n as nat) } else { None }, ScalarValue::U64(n) => if t is U64 { used(uint_rd(b, u64::MAX as nat), n as nat) } else { None },
        ScalarValue::U128(n) => if t is U128 { used(uint_rd(b, u128::MAX as nat), n as nat) } else { None },
        ScalarValue::I32(n) => if t is I32 { used(sint_rd(b, i32::MIN as int, i32::MAX as int), n as int) } else { None },
        ScalarValue::I64(n) => if t is I64 { used(sint_rd(b, i64::MIN as int, i64::MAX as int), n as int) } else { None },
        ScalarValue::I128(n) => if t is I128 { used(sint_rd(b, i128::MIN as int, i128::MAX as int), n as int) } else { None },
        ScalarValue::Char(c) => if t is Char { used(char_rd(b), (c as u32) as nat) } else { None }, ScalarValue::Bool(x) => if t is Bool { used(flag_rd(b), x) } else { None },
    }
}
pub proof fn lemma_read_as(b: Seq<u8>)
    ensures forall|v: ScalarValue, t: ScalarType| #![trigger sdec(v, t, b)] read_as(v, t, b) matches Some(k) ==> sdec(v, t, b) is Some && sdec(v, t, b)->Some_0 as int == k,
{
    assert forall|v: ScalarValue, t: ScalarType| #![trigger sdec(v, t, b)] read_as(v, t, b) is Some implies sdec(v, t, b) is Some && sdec(v, t, b)->Some_0 as int == read_as(v, t, b)->Some_0 by {
        if let ScalarValue::Char(c) = v { axiom_char(c); }
    }
}
/// bytes which a leaf, option marker, length or ordinal is not read from
pub proof fn lemma_unread(p: Seq<Schema>, b: Seq<u8>)
    requires p.len() > 0,
    ensures match p.last() {
        Schema::Scalar(t) => scalar_none(t, b) ==> nothing(p, b),
        Schema::Str => !(str_rd(b) is Val) ==> nothing(p, b),
        Schema::Bytes => !(bytes_rd(b) is Val) ==> nothing(p, b),
        Schema::Option(_) => !(flag_rd(b) is Val) ==> nothing(p, b),
        Schema::Seq(q) => q.len is None && !(len_rd(b) is Val) ==> nothing(p, b),
        Schema::Enum(vs) => !(ord_rd(b, vs@.len()) is Val) ==> nothing(p, b),
        _ => true,
    },
{
    reveal(nothing); reveal(dec); reveal(scalar_none);
    match p.last() {
        Schema::Scalar(t) => if scalar_none(t, b) {
            assert forall|g: GV| #![trigger dec(g, p, b)] dec(g, p, b) is None by { if let GV::Scalar(u, x) = g { assert(scalar_dec(t, x, b) is None); } }
        },
        _ => {}
    }
}
/// what is read where there is nothing inside
pub proof fn lemma_dec_leaf(p: Seq<Schema>, b: Seq<u8>)
    requires p.len() > 0,
    ensures forall|g: GV| #![trigger dec(g, p, b)] match (g, p.last()) {
        (GV::Scalar(t, x), Schema::Scalar(u)) => dec(g, p, b) == (if t == u { scalar_dec(t, x, b) } else { None }),
        (GV::Str(x), Schema::Str) => dec(g, p, b) == hit(str_rd(b), encode_utf8(x)),
        (GV::Bytes(x), Schema::Bytes) => dec(g, p, b) == hit(bytes_rd(b), x),
        (GV::Unit, Schema::Unit) => dec(g, p, b) == Some(0nat),
        (GV::None, Schema::Option(_)) => dec(g, p, b) == hit(flag_rd(b), false),
        _ => true,
    },
{ reveal(dec); }
pub proof fn lemma_dec_opt(p: Seq<Schema>, b: Seq<u8>)
    requires p.len() > 0, p.last() is Option,
    ensures flag_rd(b) is Val ==> rd_len(flag_rd(b)) == 1, rd_is(flag_rd(b), true) ==> match child(p, *p.last()->Option_0) {
        None => nothing(p, b),
        Some(q) => (nothing(q, b.skip(1)) ==> nothing(p, b)) && (forall|g: GV| #![trigger dec(g, p, b)] g is Some ==> dec(g, p, b) == plus(1, dec(*g->Some_0, q, b.skip(1))))
            && (forall|g: GV| #![trigger dec(g, q, b.skip(1))] dec(g, q, b.skip(1)) matches Some(k) ==> b.skip(1).skip(k as int) == b.skip((1 + k) as int)),
    },
{
    lemma_rd_used(b, 0);
    if rd_is(flag_rd(b), true) { lemma_dec_opt_some(p, b); }
}
pub proof fn lemma_skip_used(q: Seq<Schema>, b: Seq<u8>, j: int)
    requires 0 <= j <= b.len(),
    ensures forall|g: GV| #![trigger dec(g, q, b.skip(j))] dec(g, q, b.skip(j)) matches Some(k) ==> b.skip(j).skip(k as int) == b.skip(j + k),
{ assert forall|g: GV| #![trigger dec(g, q, b.skip(j))] dec(g, q, b.skip(j)) is Some implies b.skip(j).skip(dec(g, q, b.skip(j))->Some_0 as int) == b.skip(j + dec(g, q, b.skip(j))->Some_0) by { lemma_dec_used(g, q, b.skip(j)); } }
pub proof fn lemma_dec_opt_some(p: Seq<Schema>, b: Seq<u8>)
    requires p.len() > 0, p.last() is Option, rd_is(flag_rd(b), true),
    ensures match child(p, *p.last()->Option_0) {
        None => nothing(p, b),
        Some(q) => (nothing(q, b.skip(1)) ==> nothing(p, b)) && (forall|g: GV| #![trigger dec(g, p, b)] g is Some ==> dec(g, p, b) == plus(1, dec(*g->Some_0, q, b.skip(1))))
            && (forall|g: GV| #![trigger dec(g, q, b.skip(1))] dec(g, q, b.skip(1)) matches Some(k) ==> b.skip(1).skip(k as int) == b.skip((1 + k) as int)),
    },
{
    reveal(nothing); reveal(dec);
    lemma_rd_used(b, 0);
    if child(p, *p.last()->Option_0) is Some { lemma_skip_used(child(p, *p.last()->Option_0)->Some_0, b, 1); }
    let q = child(p, *p.last()->Option_0);
    if q is None || nothing(q->Some_0, b.skip(1)) {
        assert forall|g: GV| #![trigger dec(g, p, b)] dec(g, p, b) is None by { if let GV::Some(x) = g { if q is Some { assert(dec(*x, q->Some_0, b.skip(1)) is None); } } }
    }
}
pub proof fn lemma_dec_enum(p: Seq<Schema>, b: Seq<u8>)
    requires p.len() > 0, p.last() is Enum,
    ensures ord_rd(b, p.last()->Enum_0@.len()) is Val ==> ({
        let vs = p.last()->Enum_0@;
        let (o, k) = (ord_rd(b, vs.len())->Val_0, ord_rd(b, vs.len())->Val_1);
        o < vs.len() && k <= b.len() && b.skip(k as int).skip(0) == b.skip(k as int) && match child(p, vs[o as int].inner) {
            None => nothing(p, b),
            Some(q) => (nothing(q, b.skip(k as int)) ==> nothing(p, b))
                && (forall|g: GV| #![trigger dec(g, p, b)] g is Enum && g->Enum_0 == o && g->Enum_1 == vs[o as int].name@ ==> dec(g, p, b) == plus(k, dec(*g->Enum_2, q, b.skip(k as int))))
                && (forall|g: GV| #![trigger dec(g, q, b.skip(k as int))] dec(g, q, b.skip(k as int)) matches Some(j) ==> b.skip(k as int).skip(j as int) == b.skip((k + j) as int)),
        }
    }),
{
    if ord_rd(b, p.last()->Enum_0@.len()) is Val {
        lemma_dec_enum_some(p, b);
        let vs = p.last()->Enum_0@;
        lemma_rd_used(b, vs.len());
        let (o, k) = (ord_rd(b, vs.len())->Val_0, ord_rd(b, vs.len())->Val_1);
        assert(b.skip(k as int).skip(0) =~= b.skip(k as int));
        if let Some(q) = child(p, vs[o as int].inner) { lemma_skip_used(q, b, k as int); }
    }
}
pub proof fn lemma_dec_enum_some(p: Seq<Schema>, b: Seq<u8>)
    requires p.len() > 0, p.last() is Enum, ord_rd(b, p.last()->Enum_0@.len()) is Val,
    ensures ({
        let vs = p.last()->Enum_0@;
        let (o, k) = (ord_rd(b, vs.len())->Val_0, ord_rd(b, vs.len())->Val_1);
        o < vs.len() && match child(p, vs[o as int].inner) {
            None => nothing(p, b),
            Some(q) => (nothing(q, b.skip(k as int)) ==> nothing(p, b))
                && (forall|g: GV| #![trigger dec(g, p, b)] g is Enum && g->Enum_0 == o && g->Enum_1 == vs[o as int].name@ ==> dec(g, p, b) == plus(k, dec(*g->Enum_2, q, b.skip(k as int)))),
        }
    }),
{
    reveal(nothing); reveal(dec);
    let vs = p.last()->Enum_0@;
    lemma_rd_used(b, vs.len());
    let (o, k) = (ord_rd(b, vs.len())->Val_0, ord_rd(b, vs.len())->Val_1);
    let q = child(p, vs[o as int].inner);
    if q is None || nothing(q->Some_0, b.skip(k as int)) {
        assert forall|g: GV| #![trigger dec(g, p, b)] dec(g, p, b) is None by { if let GV::Enum(o2, n, x) = g { if q is Some { assert(dec(*x, q->Some_0, b.skip(k as int)) is None); } } }
    }
}
// ---- and what the coder does meanwhile
pub proof fn lemma_go_opt<'a>(s: Seq<StackFrame<'a>>)
    requires stable(s), needs(s), s.len() < usize::MAX, top_schema(s) is Option,
    ensures top_path(s).len() > 0, top_path(s).last() == top_schema(s), e_none(s) == Tr::Ok(popped(s)), !(e_some(s) is Refuse),
        e_some(s) is Ok <==> child(top_path(s), *top_schema(s)->Option_0) is Some,
        e_some(s) matches Tr::Ok(t) ==> stable(t) && needs(t) && !(top_schema(t) is Recurse) && t.len() == s.len() + 1 && popped(t) == popped(s) && top_path(t) == child(top_path(s), *top_schema(s)->Option_0)->Some_0,
{
    lemma_top(s);
    assert(s.last() == s[s.len() - 1]);
    let c = *top_schema(s)->Option_0;
    let s1 = settop(s, ApiState::AutoFinish);
    assert(settop(settop(s, ApiState::OptionUninitSomeness), ApiState::AutoFinish) =~= s1);
    lemma_settop(s, ApiState::AutoFinish);
    lemma_settop(s, ApiState::OptionUninitSomeness);
    lemma_settop_path(s, ApiState::AutoFinish);
    lemma_push_child(s1, c);
    lemma_option_ready(s);
    lemma_popped_auto(s, s1);
    if let Tr::Ok(t) = pushed(s1, c) { assert(t.last() == t[t.len() - 1]); }
    assert(e_some(s) == pushed(s1, c));
    assert(settop(s, ApiState::OptionUninitSomeness).drop_last() =~= s.drop_last());
}
pub proof fn lemma_go_enum<'a>(s: Seq<StackFrame<'a>>, o: usize)
    requires stable(s), needs(s), s.len() < usize::MAX, top_schema(s) is Enum, o < nvars(s),
    ensures top_path(s).len() > 0, top_path(s).last() == top_schema(s),
        e_ord(s, o) matches Tr::Ok(u) && u.len() == s.len() && stable(u) && ({
            let v = top_schema(s)->Enum_0@[o as int];
            &&& t_name(u, v.name@) is Ok <==> child(top_path(s), v.inner) is Some
            &&& !(t_name(u, v.name@) is Refuse)
            &&& t_name(u, v.name@) matches Tr::Ok(t) ==> stable(t) && needs(t) && !(top_schema(t) is Recurse) && t.len() == s.len() + 1 && popped(t) == popped(s) && top_path(t) == child(top_path(s), v.inner)->Some_0
        }),
{
    lemma_top(s);
    assert(s.last() == s[s.len() - 1]);
    let v = top_schema(s)->Enum_0@[o as int];
    let s1 = settop(s, ApiState::AutoFinish);
    lemma_enum_ready(s, o, v.name@);
    assert(settop(settop(settop(s, ApiState::Enum { variant_ord: None }), ApiState::Enum { variant_ord: Some(o) }), ApiState::AutoFinish) =~= s1);
    lemma_settop(s, ApiState::AutoFinish);
    lemma_settop_path(s, ApiState::AutoFinish);
    lemma_push_child(s1, v.inner);
    lemma_popped_auto(s, s1);
    if let Tr::Ok(t) = pushed(s1, v.inner) { assert(t.last() == t[t.len() - 1]); }
}
/// having begun what has elements
/// whatever the ordinal
pub proof fn lemma_go_enum_all<'a>(s: Seq<StackFrame<'a>>)
    requires stable(s), needs(s), s.len() < usize::MAX, top_schema(s) is Enum,
    ensures top_path(s).len() > 0, top_path(s).last() == top_schema(s), nvars(s) == top_schema(s)->Enum_0@.len(), nvars(s) <= usize::MAX,
        forall|o: usize| #![trigger e_ord(s, o)] o < nvars(s) ==> (e_ord(s, o) matches Tr::Ok(u) && u.len() == s.len() && stable(u) && ({
            let v = top_schema(s)->Enum_0@[o as int];
            &&& t_name(u, v.name@) is Ok <==> child(top_path(s), v.inner) is Some
            &&& !(t_name(u, v.name@) is Refuse)
            &&& t_name(u, v.name@) matches Tr::Ok(t) ==> stable(t) && needs(t) && !(top_schema(t) is Recurse) && t.len() == s.len() + 1 && popped(t) == popped(s) && top_path(t) == child(top_path(s), v.inner)->Some_0
        })),
{
    lemma_top(s);
    assert(top_schema(s)->Enum_0.len() <= usize::MAX);
    assert forall|o: usize| #![trigger e_ord(s, o)] o < nvars(s) implies (e_ord(s, o) matches Tr::Ok(u) && u.len() == s.len() && stable(u) && ({
            let v = top_schema(s)->Enum_0@[o as int];
            &&& t_name(u, v.name@) is Ok <==> child(top_path(s), v.inner) is Some
            &&& !(t_name(u, v.name@) is Refuse)
            &&& t_name(u, v.name@) matches Tr::Ok(t) ==> stable(t) && needs(t) && !(top_schema(t) is Recurse) && t.len() == s.len() + 1 && popped(t) == popped(s) && top_path(t) == child(top_path(s), v.inner)->Some_0
        })) by { lemma_go_enum(s, o); }
}
pub proof fn lemma_go_begin<'a>(k: Kind, s: Seq<StackFrame<'a>>, len: usize)
    requires stable(s), needs(s), s.len() < usize::MAX, kind_fits(k, top_schema(s)), top_schema(s) matches Schema::Seq(q) ==> (q.len matches Some(n) ==> n == len),
    ensures top_path(s).len() > 0, top_path(s).last() == top_schema(s), stable(settop(s, elem_state(k, len, 0))), top_path(settop(s, elem_state(k, len, 0))) == top_path(s),
        top_schema(s) matches Schema::Seq(q) ==> (if q.len is Some { t_begin_fixed(s, len) } else { e_begin_var(s, len) }) == Tr::Ok(settop(s, elem_state(k, len, 0))),
        top_schema(s) is Tuple ==> t_begin_tuple(s) == Tr::Ok(settop(s, elem_state(k, len, 0))),
        top_schema(s) is Struct ==> t_begin_struct(s) == Tr::Ok(settop(s, elem_state(k, len, 0))),
{
    lemma_top(s);
    assert(s.last() == s[s.len() - 1]);
    let st = elem_state(k, len, 0);
    lemma_settop(s, st);
    lemma_settop_path(s, st);
    assert(settop(settop(s, ApiState::SeqUninitLen), st) =~= settop(s, st));
}
/// having ended it
pub proof fn lemma_go_end<'a>(k: Kind, s: Seq<StackFrame<'a>>, len: usize)
    requires stable(s), needs(s), kind_fits(k, top_schema(s)),
    ensures t_finish(k, settop(s, elem_state(k, len, arity(top_schema(s), len)))) == Tr::Ok(popped(s)),
{
    let u = settop(s, elem_state(k, len, arity(top_schema(s), len)));
    if let Schema::Tuple(ts) = top_schema(s) { assert(ts.len() <= usize::MAX); }
    if let Schema::Struct(fs) = top_schema(s) { assert(fs.len() <= usize::MAX); }
    assert(u.drop_last() =~= s.drop_last());
    assert(top_state(u) == elem_state(k, len, arity(top_schema(s), len)));
}
pub proof fn lemma_at<'a>(s: Seq<StackFrame<'a>>, b: Seq<u8>)
    requires stable(s), needs(s),
    ensures top_path(s).len() > 0, top_path(s).last() == top_schema(s), b.skip(0) == b,
{
    lemma_top(s);
    assert(b.skip(0) =~= b);
}
pub open spec fn elem_name(k: Kind, s: Schema, i: int) -> Seq<char> { if k is Struct { s->Struct_0@[i].name@ } else { Seq::empty() } }
/// going on to an element
pub proof fn lemma_go_elem<'a>(k: Kind, i: int, s: Seq<StackFrame<'a>>, len: usize, es: Seq<GV>, b: Seq<u8>)
    requires stable(s), needs(s), s.len() < usize::MAX, kind_fits(k, top_schema(s)), stable(settop(s, elem_state(k, len, i))),
        body(top_schema(s), b) matches Some((n, h)) && arity(top_schema(s), len) == n && 0 <= i < n && es.len() == i && dec_seq(es, es.len(), top_path(s), b.skip(h as int)) is Some,
    ensures ({
        let (n, h) = body(top_schema(s), b)->Some_0;
        let b2 = b.skip(h as int).skip(dec_seq(es, es.len(), top_path(s), b.skip(h as int))->Some_0 as int);
        match t_elem(k, elem_name(k, top_schema(s), i), settop(s, elem_state(k, len, i))) {
            Tr::Ok(t) => stable(t) && needs(t) && !(top_schema(t) is Recurse) && t.len() == s.len() + 1 && child(top_path(s), nth(top_schema(s), i)) == Some(top_path(t)) && top_path(s).last() == top_schema(s)
                && popped(t) == settop(s, elem_state(k, len, i + 1)) && stable(popped(t)) && (nothing(top_path(t), b2) ==> nothing(top_path(s), b)),
            Tr::Refuse(_) => false,
            Tr::Break => nothing(top_path(s), b),
        }
    }),
{
    let sk = settop(s, elem_state(k, len, i));
    let name = elem_name(k, top_schema(s), i);
    lemma_top(s);
    assert(s.last() == s[s.len() - 1]);
    lemma_settop_path(s, elem_state(k, len, i));
    assert(top_state(sk) == elem_state(k, len, i));
    lemma_elem(k, name, i, sk, len);
    assert(settop(sk, elem_state(k, len, i + 1)) =~= settop(s, elem_state(k, len, i + 1)));
    let (n, h) = body(top_schema(s), b)->Some_0;
    match t_elem(k, name, sk) {
        Tr::Ok(t) => { assert(t.last() == t[t.len() - 1]); if nothing(top_path(t), b.skip(h as int).skip(dec_seq(es, es.len(), top_path(s), b.skip(h as int))->Some_0 as int)) { lemma_stuck(es, top_path(s), b); } },
        _ => { lemma_stuck(es, top_path(s), b); },
    }
}
pub open spec fn gseq(es: Seq<Value>) -> Seq<GV> { Seq::new(es.len(), |i: int| gv(es[i])) }
pub open spec fn gseqf(es: Seq<StructValueField>) -> Seq<GV> { Seq::new(es.len(), |i: int| gv(es[i].value)) }
pub proof fn lemma_gseq_push(es: Seq<Value>, v: Value)
    ensures gseq(es.push(v)) == gseq(es).push(gv(v)), gseq(es).len() == es.len(), gseq(Seq::empty()) == Seq::<GV>::empty(),
{ assert(gseq(es.push(v)) =~= gseq(es).push(gv(v))); assert(gseq(Seq::empty()) =~= Seq::empty()); }
pub proof fn lemma_gseqf_push(es: Seq<StructValueField>, v: StructValueField)
    ensures gseqf(es.push(v)) == gseqf(es).push(gv(v.value)), gseqf(es).len() == es.len(), gseqf(Seq::empty()) == Seq::<GV>::empty(),
{ assert(gseqf(es.push(v)) =~= gseqf(es).push(gv(v.value))); assert(gseqf(Seq::empty()) =~= Seq::empty()); }
pub proof fn lemma_gv_elems(es: Vec<Value>)
    ensures gv(Value::FixedLenSeq(es)) == GV::FixedSeq(gseq(es@)), gv(Value::VarLenSeq(es)) == GV::VarSeq(gseq(es@)), gv(Value::Tuple(es)) == GV::Tuple(gseq(es@)),
{ reveal(gv); lemma_gvs(es, es@.len()); assert(gvs(es, es@.len()) =~= gseq(es@)); }
pub open spec fn names_are(es: Seq<StructValueField>, fs: Seq<StructSchemaField>, n: int) -> bool {
    es.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] es[i]).name@ == fs[i].name@
}
pub proof fn lemma_gv_fields(es: Vec<StructValueField>, fs: Seq<StructSchemaField>)
    requires es@.len() == fs.len(), forall|i: int| 0 <= i < fs.len() ==> (#[trigger] es@[i]).name@ == fs[i].name@,
    ensures gv(Value::Struct(es)) == GV::Struct(fnames(fs), gseqf(es@)),
{ reveal(gv); lemma_gvf(es, es@.len()); assert(gvf(es, es@.len()) =~= gseqf(es@)); assert(Seq::new(es@.len(), |i: int| es@[i].name@) =~= fnames(fs)); }

pub proof fn theorem_fresh_path<'a>(s: Seq<StackFrame<'a>>, sch: Schema)
    requires fresh(s, sch),
    ensures stable(s), needs(s), top_schema(s) == sch, top_path(s) == seq![sch], popped(s).len() == 0, sch is Recurse ==> forall|g: GV| !conf(g, seq![sch]),
{
    assert(s.last() == s[0]);
    assert(path(s, s[0].parent) == Seq::<Schema>::empty());
    assert(top_path(s) == Seq::<Schema>::empty().push(*s[0].schema));
    assert(top_path(s) =~= seq![sch]);
    assert(s.drop_last() =~= Seq::<StackFrame<'a>>::empty());
}

// ---- the properties, as functions verified against the contracts of the crate
/// C08, C05, C10: reading a value with a new decoder
//@ C08,C05,C10
pub fn client_decode<'a, R: io::Read>(d: &mut Decoder<'a, 'a, R>, Ghost(sch): Ghost<Schema>) -> (r: core::result::Result<(Value, bool), crate::error::Error>)
    requires !old(d).state.broken, fresh(old(d).state.stack@, sch),
    ensures
        r is Ok ==> conf(gv(r->Ok_0.0), seq![sch]) && r->Ok_0.1
            && (dec(gv(r->Ok_0.0), seq![sch], (*old(d)).read.rest()) matches Some(k) && (*final(d)).read.rest() == (*old(d)).read.rest().skip(k as int)),
        r is Ok ==> forall|g: GV, t: Seq<u8>| #![trigger enc(g, seq![sch]) + t] conf(g, seq![sch]) && (*old(d)).read.rest() == enc(g, seq![sch]) + t ==> gv(r->Ok_0.0) == g && (*final(d)).read.rest() == t,
        r is Err ==> (*final(d)).state.broken || (*final(d)).state.stack@.len() > 0,
        r is Err && (*old(d)).read.reliable() && !(sch is Recurse) ==> nothing(seq![sch], (*old(d)).read.rest()),
        r is Err && (*old(d)).read.reliable() ==> !(exists|g: GV, t: Seq<u8>| #![trigger enc(g, seq![sch]) + t] conf(g, seq![sch]) && (*old(d)).read.rest() == enc(g, seq![sch]) + t),
{
    let ghost s0 = d.state.stack@;
    let ghost b0 = d.read.rest();
    let ghost p = seq![sch];
    proof { theorem_fresh_path(s0, sch); }
    match Value::decode_from(d) {
        Ok(v) => {
            proof {
                lemma_dec_conf(gv(v), p, b0);
                assert forall|g: GV, t: Seq<u8>| #![trigger enc(g, p) + t] conf(g, p) && b0 == enc(g, p) + t implies gv(v) == g && d.read.rest() == t by {
                    lemma_rt(g, p, t);
                    lemma_dec_one(gv(v), g, p, b0);
                    assert(b0.skip(enc(g, p).len() as int) =~= t);
                }
            }
            let f = d.coder_state().is_finished();
            Ok((v, f))
        }
        Err(x) => {
            proof {
                assert forall|g: GV, t: Seq<u8>| #![trigger enc(g, p) + t] (*old(d)).read.reliable() && conf(g, p) implies b0 != enc(g, p) + t by {
                    if b0 == enc(g, p) + t { lemma_rt(g, p, t); reveal(nothing); assert(dec(g, p, b0) is None); }
                }
            }
            Err(x)
        }
    }
}
/// C08: what was coded is read back, and nothing beyond it is touched
//@ C08
pub fn client_roundtrip<'a, W: io::Write, R: io::Read>(v: &Value, e: &mut Encoder<'a, 'a, W>, d: &mut Decoder<'a, 'a, R>, Ghost(sch): Ghost<Schema>, Ghost(t): Ghost<Seq<u8>>) -> (r: Option<Value>)
    requires !old(e).state.broken, fresh(old(e).state.stack@, sch), !old(d).state.broken, fresh(old(d).state.stack@, sch), old(e).write.written().len() == 0,
        forall|g: GV| #![trigger enc(g, seq![sch])] g == gv(*v) ==> old(d).read.rest() == enc(g, seq![sch]) + t,
    ensures
        conf(gv(*v), seq![sch]) && (*old(e)).write.reliable() && (*old(d)).read.reliable() ==> r is Some,
        r is Some ==> gv(r->Some_0) == gv(*v) && (*old(d)).read.rest() == (*final(e)).write.written() + t && (*final(d)).read.rest() == t,
{
    let ghost g0 = gv(*v);
    proof { assert(old(d).read.rest() == enc(g0, seq![sch]) + t); }
    match client_encode(v, e, Ghost(sch)) {
        Ok(_) => {
            proof { assert(e.write.written() =~= enc(g0, seq![sch])); }
            match client_decode(d, Ghost(sch)) { Ok((w, _)) => Some(w), Err(_) => None }
        },
        Err(_) => None,
    }
}
