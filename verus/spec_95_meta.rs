//@file C15
// ======== schemas, as values
// What serde's derive for the types of schemas does to a coder. `Schema` holds
// schemas, so its own contract is assumed where parts of it are serialized, and
// proved of the derived function (`Schema::Serialize__serialize`): the recursion
// rule. That a schema is finite is all that is left to it.
/// a struct of two fields
pub open spec fn two_does<'a, A: Serialize, B: Serialize>(s: Seq<StackFrame<'a>>, n: &'static str, a: A, m: &'static str, b: B) -> Run<'a> {
    match t_begin_struct(s) {
        Tr::Ok(t) => {
            let x = after(r_of(t_field(t, n@), Seq::empty()), &a);
            match x.tr {
                Tr::Ok(t) => {
                    let y = after(r_of(t_field(t, m@), Seq::empty()), &b);
                    match y.tr { Tr::Ok(t) => r_of(t_finish_struct(t), x.b + y.b), tr => Run { tr, b: Seq::empty() } }
                },
                tr => Run { tr, b: Seq::empty() },
            }
        },
        tr => Run { tr, b: Seq::empty() },
    }
}
pub proof fn lemma_cat()
    ensures forall|x: Seq<u8>, y: Seq<u8>, z: Seq<u8>| #[trigger] (x + (y + z)) == (x + y) + z, forall|x: Seq<u8>| #[trigger] (x + Seq::<u8>::empty()) == x,
        forall|x: Seq<u8>| #[trigger] (Seq::<u8>::empty() + x) == x,
{
    assert forall|x: Seq<u8>, y: Seq<u8>, z: Seq<u8>| #[trigger] (x + (y + z)) == (x + y) + z by { assert(x + (y + z) =~= (x + y) + z); }
    assert forall|x: Seq<u8>| #[trigger] (x + Seq::<u8>::empty()) == x by { assert(x + Seq::<u8>::empty() =~= x); }
    assert forall|x: Seq<u8>| #[trigger] (Seq::<u8>::empty() + x) == x by { assert(Seq::<u8>::empty() + x =~= x); }
}
pub open spec fn seq_schema_does<'a>(x: SeqSchema, s: Seq<StackFrame<'a>>) -> Run<'a> { two_does(s, "len", x.len, "inner", x.inner) }
pub open spec fn field_does<'a>(x: StructSchemaField, s: Seq<StackFrame<'a>>) -> Run<'a> { two_does(s, "name", x.name, "inner", x.inner) }
pub open spec fn variant_does<'a>(x: EnumSchemaVariant, s: Seq<StackFrame<'a>>) -> Run<'a> { two_does(s, "name", x.name, "inner", x.inner) }
pub open spec fn scalar_index(x: ScalarType) -> u32 {
    match x {
        ScalarType::U8 => 0, ScalarType::U16 => 1, ScalarType::U32 => 2, ScalarType::U64 => 3, ScalarType::U128 => 4,
        ScalarType::I8 => 5, ScalarType::I16 => 6, ScalarType::I32 => 7, ScalarType::I64 => 8, ScalarType::I128 => 9,
        ScalarType::F32 => 10, ScalarType::F64 => 11, ScalarType::Char => 12, ScalarType::Bool => 13,
    }
}
pub open spec fn scalar_name(x: ScalarType) -> Seq<char> {
    match x {
        ScalarType::U8 => "U8"@, ScalarType::U16 => "U16"@, ScalarType::U32 => "U32"@, ScalarType::U64 => "U64"@, ScalarType::U128 => "U128"@,
        ScalarType::I8 => "I8"@, ScalarType::I16 => "I16"@, ScalarType::I32 => "I32"@, ScalarType::I64 => "I64"@, ScalarType::I128 => "I128"@,
        ScalarType::F32 => "F32"@, ScalarType::F64 => "F64"@, ScalarType::Char => "Char"@, ScalarType::Bool => "Bool"@,
    }
}
pub open spec fn scalar_type_does<'a>(x: ScalarType, s: Seq<StackFrame<'a>>) -> Run<'a> { r_unit_variant(s, scalar_index(x), scalar_name(x)) }
pub open spec fn schema_does<'a>(x: Schema, s: Seq<StackFrame<'a>>) -> Run<'a> {
    match x {
        Schema::Scalar(y) => after(r_enum(s, 0, "Scalar"@), &y),
        Schema::Str => r_unit_variant(s, 1, "Str"@),
        Schema::Bytes => r_unit_variant(s, 2, "Bytes"@),
        Schema::Unit => r_unit_variant(s, 3, "Unit"@),
        Schema::Option(y) => after(r_enum(s, 4, "Option"@), &y),
        Schema::Seq(y) => after(r_enum(s, 5, "Seq"@), &y),
        Schema::Tuple(y) => after(r_enum(s, 6, "Tuple"@), &y),
        Schema::Struct(y) => after(r_enum(s, 7, "Struct"@), &y),
        Schema::Enum(y) => after(r_enum(s, 8, "Enum"@), &y),
        Schema::Recurse(y) => after(r_enum(s, 9, "Recurse"@), &y),
    }
}
pub uninterp spec fn schema_run<'a>(x: Schema, s: Seq<StackFrame<'a>>) -> Run<'a>;
impl Serialize for Schema {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { schema_run(*self, s) }
    #[verifier::external_body]
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { unimplemented!() }
}
#[verifier::external_body]
pub proof fn axiom_schema_does<'a>(x: Schema, s: Seq<StackFrame<'a>>)
    ensures schema_run(x, s) == schema_does(x, s),
{}
impl Serialize for ScalarType {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { scalar_type_does(*self, s) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { self.Serialize__serialize(e) }
}
impl Serialize for SeqSchema {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { seq_schema_does(*self, s) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { self.Serialize__serialize(e) }
}
impl Serialize for StructSchemaField {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { field_does(*self, s) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { self.Serialize__serialize(e) }
}
impl Serialize for EnumSchemaVariant {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { variant_does(*self, s) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { self.Serialize__serialize(e) }
}
// what serde does for boxes, options and vectors
impl<T: Serialize> Serialize for Box<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { (**self).does(s) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { (**self).serialize(e) }
}
impl<T: Serialize> Serialize for Option<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { match self { None => r_of(e_none(s), seq![0u8]), Some(x) => after(r_of(e_some(s), seq![1u8]), x) } }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { match self { None => e.Serializer__serialize_none(), Some(x) => e.Serializer__serialize_some(x) } }
}
impl<T: Serialize> Serialize for Vec<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { like_done(seq_like_as(s), self@, r_seq_like(s, Some(self@.len() as usize))) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) {
        let ghost s = e.state.stack@; let ghost w = e.write.written(); let ghost rel = e.write.reliable();
        let ghost r0 = r_seq_like(s, Some(self@.len() as usize)); let ghost k = seq_like_as(s); let ghost xs = self@;
        let mut q = match e.Serializer__serialize_seq(Some(self.len())) { Ok(q) => q, Err(x) => return Err(x) };
        let ghost qi = q;
        let mut i: usize = 0;
        #[verifier::loop_isolation(false)]
        while i < self.len()
            invariant
                0 <= i <= xs.len(), xs == self@, q.seq_like == k, r0.tr is Ok,
                like_to(k, xs, i as nat, r0).tr == Tr::Ok(q.encoder.state.stack@), !q.encoder.state.broken, cinv(*q.encoder.state),
                q.encoder.write.written() == w + like_to(k, xs, i as nat, r0).b, q.encoder.write.reliable() == rel,
                *final(qi.encoder) == *final(q.encoder),
                !(*old(e)).state.broken, s == (*old(e)).state.stack@, w == (*old(e)).write.written(), rel == (*old(e)).write.reliable(), self.does(s) == like_all(k, xs, r0),
            decreases xs.len() - i,
        {
            let ghost q0 = like_to(k, xs, i as nat, r0);
            proof { if !(like_to(k, xs, (i + 1) as nat, r0).tr is Ok) { lemma_like_fail(k, xs, (i + 1) as nat, xs.len(), r0); } }
            match q.SerializeSeq__serialize_element(&self[i]) { Ok(_) => (), Err(x) => return Err(x) }
            proof { let b = after(r_of(t_like_elem(k, q0.tr->Ok_0), Seq::empty()), &xs[i as int]).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
            i += 1;
        }
        let ghost q0 = like_to(k, xs, xs.len(), r0);
        proof { let b = r_of(t_like_end(k, q0.tr->Ok_0), Seq::empty()).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
        q.SerializeSeq__end()
    }
}

// ---- the value of FORMAT.txt which a schema is
pub open spec fn named_gv(n: Seq<char>, g: GV) -> GV { GV::Struct(seq!["name"@, "inner"@], seq![GV::Str(n), g]) }
pub open spec fn len_gv(n: Option<usize>) -> GV { match n { None => GV::None, Some(n) => GV::Some(Box::new(GV::Scalar(ScalarType::U64, n as int))) } }
pub open spec fn sgv(x: Schema) -> GV
    decreases x, 0nat,
{
    match x {
        Schema::Scalar(t) => GV::Enum(0, "Scalar"@, Box::new(GV::Enum(scalar_index(t) as nat, scalar_name(t), Box::new(GV::Unit)))),
        Schema::Str => GV::Enum(1, "Str"@, Box::new(GV::Unit)),
        Schema::Bytes => GV::Enum(2, "Bytes"@, Box::new(GV::Unit)),
        Schema::Unit => GV::Enum(3, "Unit"@, Box::new(GV::Unit)),
        Schema::Option(y) => GV::Enum(4, "Option"@, Box::new(sgv(*y))),
        Schema::Seq(q) => GV::Enum(5, "Seq"@, Box::new(GV::Struct(seq!["len"@, "inner"@], seq![len_gv(q.len), sgv(*q.inner)]))),
        Schema::Tuple(v) => GV::Enum(6, "Tuple"@, Box::new(GV::VarSeq(sgvs(v, v@.len())))),
        Schema::Struct(v) => GV::Enum(7, "Struct"@, Box::new(GV::VarSeq(sgvf(v, v@.len())))),
        Schema::Enum(v) => GV::Enum(8, "Enum"@, Box::new(GV::VarSeq(sgve(v, v@.len())))),
        Schema::Recurse(n) => GV::Enum(9, "Recurse"@, Box::new(GV::Scalar(ScalarType::U64, n as int))),
    }
}
pub open spec fn sgvs(es: Vec<Schema>, n: nat) -> Seq<GV>
    decreases es, n,
{
    if n == 0 || n > es@.len() { Seq::empty() } else { sgvs(es, (n - 1) as nat).push(sgv(es@[n - 1])) }
}
pub open spec fn sgvf(es: Vec<StructSchemaField>, n: nat) -> Seq<GV>
    decreases es, n,
{
    if n == 0 || n > es@.len() { Seq::empty() } else { sgvf(es, (n - 1) as nat).push(named_gv(es@[n - 1].name@, sgv(es@[n - 1].inner))) }
}
pub open spec fn sgve(es: Vec<EnumSchemaVariant>, n: nat) -> Seq<GV>
    decreases es, n,
{
    if n == 0 || n > es@.len() { Seq::empty() } else { sgve(es, (n - 1) as nat).push(named_gv(es@[n - 1].name@, sgv(es@[n - 1].inner))) }
}
pub proof fn lemma_sgvs(es: Vec<Schema>, n: nat)
    requires n <= es@.len(),
    ensures sgvs(es, n).len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] sgvs(es, n)[i]) == sgv(es@[i]),
    decreases n,
{ if n > 0 { lemma_sgvs(es, (n - 1) as nat); } }
pub proof fn lemma_sgvf(es: Vec<StructSchemaField>, n: nat)
    requires n <= es@.len(),
    ensures sgvf(es, n).len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] sgvf(es, n)[i]) == named_gv(es@[i].name@, sgv(es@[i].inner)),
    decreases n,
{ if n > 0 { lemma_sgvf(es, (n - 1) as nat); } }
pub proof fn lemma_sgve(es: Vec<EnumSchemaVariant>, n: nat)
    requires n <= es@.len(),
    ensures sgve(es, n).len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] sgve(es, n)[i]) == named_gv(es@[i].name@, sgv(es@[i].inner)),
    decreases n,
{ if n > 0 { lemma_sgve(es, (n - 1) as nat); } }

// ---- it conforms to the meta-schema
/// from the value of a name with a schema back to the meta-schema
pub proof fn lemma_conf_named(m: Schema, q: Schema, n: String, x: Schema)
    requires meta(m), meta_named(q), conf(sgv(x), seq![m]),
    ensures ({ let p = seq![m].push(q); child(p, *q->Seq_0.inner) is Some && conf(named_gv(n@, sgv(x)), child(p, *q->Seq_0.inner)->Some_0) }),
{
    let p = seq![m].push(q);
    let st = *q->Seq_0.inner;
    let pp = p.push(st);
    axiom_string_len(n);
    let fs = st->Struct_0;
    assert(child(p, st) == Some(pp));
    assert(pp.take(1) =~= seq![m]);
    assert(child(pp, fs@[1].inner) == Some(seq![m]));
    assert(child(pp, fs@[0].inner) == Some(pp.push(Schema::Str)));
    let g = named_gv(n@, sgv(x));
    let ns = seq!["name"@, "inner"@]; let es = seq![GV::Str(n@), sgv(x)];
    assert(conf(es[0], pp.push(fs@[0].inner)));
    assert(conf(GV::Struct(ns, es), pp)) by {
        assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies ns[i] == fs@[i].name@ && child(pp, fs@[i].inner) is Some && conf(es[i], child(pp, fs@[i].inner)->Some_0) by { if i == 0 {} else { assert(i == 1); } }
    }
}
pub proof fn lemma_conf_unit(m: Schema, i: nat, n: Seq<char>)
    requires m matches Schema::Enum(v) && i < v@.len() && unit_variant(v@[i as int], n),
    ensures conf(GV::Enum(i, n, Box::new(GV::Unit)), seq![m]),
{ let p = seq![m]; let v = m->Enum_0; assert(child(p, v@[i as int].inner) == Some(p.push(Schema::Unit))); assert(conf(GV::Unit, p.push(Schema::Unit))); }
pub proof fn lemma_conf_scalar(m: Schema, t: ScalarType)
    requires meta(m),
    ensures conf(sgv(Schema::Scalar(t)), seq![m]),
{
    let p = seq![m]; let v = m->Enum_0; let q = v@[0].inner; let pp = p.push(q); let i = scalar_index(t);
    assert(child(p, q) == Some(pp));
    let w = q->Enum_0;
    assert(unit_variant(w@[i as int], scalar_name(t)));
    assert(child(pp, w@[i as int].inner) == Some(pp.push(Schema::Unit)));
    assert(conf(GV::Unit, pp.push(Schema::Unit)));
    assert(conf(GV::Enum(i as nat, scalar_name(t), Box::new(GV::Unit)), pp));
}
//@ C15
pub proof fn lemma_meta_conf(m: Schema, x: Schema)
    requires meta(m),
    ensures conf(sgv(x), seq![m]),
    decreases x,
{
    let p = seq![m]; let v = m->Enum_0;
    match x {
        Schema::Scalar(t) => lemma_conf_scalar(m, t),
        Schema::Str => lemma_conf_unit(m, 1, "Str"@),
        Schema::Bytes => lemma_conf_unit(m, 2, "Bytes"@),
        Schema::Unit => lemma_conf_unit(m, 3, "Unit"@),
        Schema::Option(y) => { lemma_meta_conf(m, *y); assert(p.take(1) =~= p); assert(child(p, v@[4].inner) == Some(p)); },
        Schema::Seq(q) => {
            lemma_meta_conf(m, *q.inner);
            let st = v@[5].inner; let pp = p.push(st); let fs = st->Struct_0;
            assert(child(p, st) == Some(pp));
            assert(pp.take(1) =~= p);
            assert(child(pp, fs@[1].inner) == Some(p));
            let po = pp.push(fs@[0].inner);
            assert(child(pp, fs@[0].inner) == Some(po));
            if let Some(n) = q.len { let u = Schema::Scalar(ScalarType::U64); assert(child(po, u) == Some(po.push(u))); assert(conf(GV::Scalar(ScalarType::U64, n as int), po.push(u))); }
            assert(conf(len_gv(q.len), po));
            let ns = seq!["len"@, "inner"@]; let es = seq![len_gv(q.len), sgv(*q.inner)];
            assert(conf(GV::Struct(ns, es), pp)) by {
                assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies ns[i] == fs@[i].name@ && child(pp, fs@[i].inner) is Some && conf(es[i], child(pp, fs@[i].inner)->Some_0) by { if i == 0 {} else { assert(i == 1); } }
            }
        },
        Schema::Tuple(es) => {
            let q = v@[6].inner; let pp = p.push(q); let gs = sgvs(es, es@.len());
            assert(child(p, q) == Some(pp));
            assert(pp.take(1) =~= p);
            assert(child(pp, *q->Seq_0.inner) == Some(p));
            lemma_sgvs(es, es@.len());
            assert forall|i: int| #![trigger gs[i]] 0 <= i < gs.len() implies conf(gs[i], p) by { lemma_meta_conf(m, es@[i]); }
            assert(es.len() <= usize::MAX);
            assert(conf(GV::VarSeq(gs), pp));
        },
        Schema::Struct(es) => {
            let q = v@[7].inner; let pp = p.push(q); let gs = sgvf(es, es@.len());
            assert(child(p, q) == Some(pp));
            lemma_sgvf(es, es@.len());
            assert forall|i: int| #![trigger gs[i]] 0 <= i < gs.len() implies child(pp, *q->Seq_0.inner) is Some && conf(gs[i], child(pp, *q->Seq_0.inner)->Some_0) by { lemma_meta_conf(m, es@[i].inner); lemma_conf_named(m, q, es@[i].name, es@[i].inner); }
            assert(es.len() <= usize::MAX);
            assert(conf(GV::VarSeq(gs), pp));
        },
        Schema::Enum(es) => {
            let q = v@[8].inner; let pp = p.push(q); let gs = sgve(es, es@.len());
            assert(child(p, q) == Some(pp));
            lemma_sgve(es, es@.len());
            assert forall|i: int| #![trigger gs[i]] 0 <= i < gs.len() implies child(pp, *q->Seq_0.inner) is Some && conf(gs[i], child(pp, *q->Seq_0.inner)->Some_0) by { lemma_meta_conf(m, es@[i].inner); lemma_conf_named(m, q, es@[i].name, es@[i].inner); }
            assert(es.len() <= usize::MAX);
            assert(conf(GV::VarSeq(gs), pp));
        },
        Schema::Recurse(n) => { let u = v@[9].inner; assert(child(p, u) == Some(p.push(u))); assert(conf(GV::Scalar(ScalarType::U64, n as int), p.push(u))); },
    }
}

// ---- and it is what serializing the schema writes
pub proof fn lemma_enum_after<'a, T: Serialize>(i: u32, n: Seq<char>, x: T, g: GV, s: Seq<StackFrame<'a>>)
    requires writes(&x, g), run(GV::Enum(i as nat, n, Box::new(g)), s).tr is Ok,
    ensures after(r_enum(s, i, n), &x) == run(GV::Enum(i as nat, n, Box::new(g)), s),
{ reveal(run); if let Tr::Ok(t) = e_enum(s, i as usize, n) { assert(run(g, t).tr is Ok); } }
pub proof fn lemma_enum_unit<'a>(i: u32, n: Seq<char>, s: Seq<StackFrame<'a>>)
    requires run(GV::Enum(i as nat, n, Box::new(GV::Unit)), s).tr is Ok,
    ensures r_unit_variant(s, i, n) == run(GV::Enum(i as nat, n, Box::new(GV::Unit)), s),
{ reveal(run); if let Tr::Ok(t) = e_enum(s, i as usize, n) { assert(run(GV::Unit, t).tr is Ok); } }
pub proof fn lemma_two<'a, A: Serialize, B: Serialize>(s: Seq<StackFrame<'a>>, n: &'static str, a: A, m: &'static str, b: B, ga: GV, gb: GV)
    requires writes(&a, ga), writes(&b, gb), run(GV::Struct(seq![n@, m@], seq![ga, gb]), s).tr is Ok,
    ensures two_does(s, n, a, m, b) == run(GV::Struct(seq![n@, m@], seq![ga, gb]), s),
{
    let g = GV::Struct(seq![n@, m@], seq![ga, gb]); let e = Seq::<u8>::empty();
    lemma_run_begin(g, s);
    let t0 = begun(g, s)->Ok_0;
    lemma_run_to(g, 0, s, t0, e);
    lemma_run_to(g, 1, s, t0, e);
    lemma_run_finish(g, s, t0, e);
    let u = t_field(t0, n@)->Ok_0;
    assert(gelems(g)[0] == ga && gelems(g)[1] == gb && gnames(g)[0] == n@ && gnames(g)[1] == m@);
    assert(run_to(g, 1, t0).tr is Ok); assert(run_to(g, 2, t0).tr is Ok);
    assert(a.does(u) == run(ga, u));
    let c = run(ga, u).tr->Ok_0;
    let d = t_field(c, m@)->Ok_0;
    assert(b.does(d) == run(gb, d));
    lemma_cat();
}
pub proof fn lemma_scalar_writes(t: ScalarType)
    ensures writes(&t, GV::Enum(scalar_index(t) as nat, scalar_name(t), Box::new(GV::Unit))),
{
    let g = GV::Enum(scalar_index(t) as nat, scalar_name(t), Box::new(GV::Unit));
    assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies t.does(s) == run(g, s) by { lemma_enum_unit(scalar_index(t), scalar_name(t), s); }
}
pub proof fn lemma_usize_writes(n: usize)
    ensures writes(&n, GV::Scalar(ScalarType::U64, n as int)),
{ reveal(run); }
pub proof fn lemma_string_writes(x: String)
    ensures writes(&x, GV::Str(x@)),
{ reveal(run); }
pub proof fn lemma_len_writes(x: Option<usize>)
    ensures writes(&x, len_gv(x)),
{
    let g = len_gv(x);
    assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies x.does(s) == run(g, s) by {
        reveal(run);
        if let Some(n) = x { lemma_usize_writes(n); let h = GV::Scalar(ScalarType::U64, n as int); if let Tr::Ok(t) = e_some(s) { assert(run(h, t).tr is Ok); assert(n.does(t) == run(h, t)); } }
    }
}
pub proof fn lemma_box_writes<T: Serialize>(x: Box<T>, g: GV)
    requires writes(&*x, g),
    ensures writes(&x, g),
{ assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies x.does(s) == run(g, s) by { assert((*x).does(s) == run(g, s)); } }
pub proof fn lemma_vec_writes<T: Serialize>(x: Vec<T>, gs: Seq<GV>)
    requires all_write(x@, gs),
    ensures writes(&x, GV::VarSeq(gs)),
{
    let g = GV::VarSeq(gs);
    assert(x.len() <= usize::MAX);
    assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies x.does(s) == run(g, s) by { lemma_like(x@, gs, g, s, Some(x@.len() as usize)); }
}
pub proof fn lemma_named_field(x: StructSchemaField)
    requires writes(&x.inner, sgv(x.inner)),
    ensures writes(&x, named_gv(x.name@, sgv(x.inner))),
{
    let g = named_gv(x.name@, sgv(x.inner));
    lemma_string_writes(x.name);
    assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies x.does(s) == run(g, s) by { lemma_two(s, "name", x.name, "inner", x.inner, GV::Str(x.name@), sgv(x.inner)); }
}
pub proof fn lemma_named_variant(x: EnumSchemaVariant)
    requires writes(&x.inner, sgv(x.inner)),
    ensures writes(&x, named_gv(x.name@, sgv(x.inner))),
{
    let g = named_gv(x.name@, sgv(x.inner));
    lemma_string_writes(x.name);
    assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies x.does(s) == run(g, s) by { lemma_two(s, "name", x.name, "inner", x.inner, GV::Str(x.name@), sgv(x.inner)); }
}
pub proof fn lemma_seq_writes(x: SeqSchema)
    requires writes(&*x.inner, sgv(*x.inner)),
    ensures writes(&x, GV::Struct(seq!["len"@, "inner"@], seq![len_gv(x.len), sgv(*x.inner)])),
{
    let g = GV::Struct(seq!["len"@, "inner"@], seq![len_gv(x.len), sgv(*x.inner)]);
    lemma_len_writes(x.len); lemma_box_writes(x.inner, sgv(*x.inner));
    assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies x.does(s) == run(g, s) by { lemma_two(s, "len", x.len, "inner", x.inner, len_gv(x.len), sgv(*x.inner)); }
}
pub proof fn lemma_schema_step<'a, T: Serialize>(x: Schema, i: u32, n: Seq<char>, y: T, g: GV)
    requires writes(&y, g), sgv(x) == GV::Enum(i as nat, n, Box::new(g)), forall|s: Seq<StackFrame>| #[trigger] schema_does(x, s) == after(r_enum(s, i, n), &y),
    ensures writes(&x, sgv(x)),
{ let h = sgv(x); assert forall|s: Seq<StackFrame>| #![trigger run(h, s)] run(h, s).tr is Ok implies x.does(s) == run(h, s) by { axiom_schema_does(x, s); lemma_enum_after(i, n, y, g, s); } }
pub proof fn lemma_schema_unit<'a>(x: Schema, i: u32, n: Seq<char>)
    requires sgv(x) == GV::Enum(i as nat, n, Box::new(GV::Unit)), forall|s: Seq<StackFrame>| #[trigger] schema_does(x, s) == r_unit_variant(s, i, n),
    ensures writes(&x, sgv(x)),
{ let h = sgv(x); assert forall|s: Seq<StackFrame>| #![trigger run(h, s)] run(h, s).tr is Ok implies x.does(s) == run(h, s) by { axiom_schema_does(x, s); lemma_enum_unit(i, n, s); } }
//@ C15
pub proof fn lemma_meta_writes(x: Schema)
    ensures writes(&x, sgv(x)),
    decreases x,
{
    hide(run); hide(r_enum); hide(after); hide(r_unit_variant);
    match x {
        Schema::Scalar(t) => { lemma_scalar_writes(t); lemma_schema_step(x, 0, "Scalar"@, t, GV::Enum(scalar_index(t) as nat, scalar_name(t), Box::new(GV::Unit))); },
        Schema::Str => lemma_schema_unit(x, 1, "Str"@),
        Schema::Bytes => lemma_schema_unit(x, 2, "Bytes"@),
        Schema::Unit => lemma_schema_unit(x, 3, "Unit"@),
        Schema::Option(y) => { lemma_meta_writes(*y); lemma_box_writes(y, sgv(*y)); lemma_schema_step(x, 4, "Option"@, y, sgv(*y)); },
        Schema::Seq(q) => { lemma_meta_writes(*q.inner); lemma_seq_writes(q); lemma_schema_step(x, 5, "Seq"@, q, GV::Struct(seq!["len"@, "inner"@], seq![len_gv(q.len), sgv(*q.inner)])); },
        Schema::Tuple(es) => {
            let gs = sgvs(es, es@.len());
            lemma_sgvs(es, es@.len());
            assert forall|i: int| 0 <= i < es@.len() implies writes(&#[trigger] es@[i], gs[i]) by { lemma_meta_writes(es@[i]); }
            lemma_vec_writes(es, gs); lemma_schema_step(x, 6, "Tuple"@, es, GV::VarSeq(gs));
        },
        Schema::Struct(es) => {
            let gs = sgvf(es, es@.len());
            lemma_sgvf(es, es@.len());
            assert forall|i: int| 0 <= i < es@.len() implies writes(&#[trigger] es@[i], gs[i]) by { lemma_meta_writes(es@[i].inner); lemma_named_field(es@[i]); }
            lemma_vec_writes(es, gs); lemma_schema_step(x, 7, "Struct"@, es, GV::VarSeq(gs));
        },
        Schema::Enum(es) => {
            let gs = sgve(es, es@.len());
            lemma_sgve(es, es@.len());
            assert forall|i: int| 0 <= i < es@.len() implies writes(&#[trigger] es@[i], gs[i]) by { lemma_meta_writes(es@[i].inner); lemma_named_variant(es@[i]); }
            lemma_vec_writes(es, gs); lemma_schema_step(x, 8, "Enum"@, es, GV::VarSeq(gs));
        },
        Schema::Recurse(n) => { lemma_usize_writes(n); lemma_schema_step(x, 9, "Recurse"@, n, GV::Scalar(ScalarType::U64, n as int)); },
    }
}
/// every level of a schema takes memory of its own, three levels of the value at the most
#[verifier::external_body]
pub proof fn axiom_schema_depth(x: Schema)
    ensures depth(sgv(x)) <= isize::MAX,
{}
/// A schema is coded, to the end, with the schema of schemas.
//@ C15
pub fn client_meta<'a, W: io::Write>(x: &Schema, e: &mut Encoder<'a, 'a, W>, Ghost(m): Ghost<Schema>) -> (r: core::result::Result<bool, crate::error::Error>)
    requires !old(e).state.broken, fresh(old(e).state.stack@, m), meta(m), old(e).write.reliable(),
    ensures r == core::result::Result::<bool, crate::error::Error>::Ok(true), (*final(e)).write.written() == (*old(e)).write.written() + enc(sgv(*x), seq![m]),
{
    proof { axiom_schema_depth(*x); lemma_meta_conf(m, *x); lemma_meta_writes(*x); }
    client_serialize(x, e, Ghost(m), Ghost(sgv(*x)))
}
