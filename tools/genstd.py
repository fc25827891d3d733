#!/usr/bin/env python3
"""Writes verus/spec_96_std.rs: the standard types, as serde serializes them."""
import sys
O = []
def w(s): O.append(s)
w('''//@file C13
// ======== the standard types (written by tools/genstd.py)
// serde's impls for them, modelled by the calls they make (each body is verified to
// do what `does` says), with the value of FORMAT.txt each one is, which conforms to
// the known schema wherever in a schema tree that is, and is what they write.
/// A type, the known schema of which is the one serde uses for it.
pub trait Std: KnownSchema + Serialize {
    spec fn gv(&self) -> GV;
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
        requires place(l, p), Self::is_schema(l, r),
        ensures child(p, r) is Some, conf(self.gv(), child(p, r)->Some_0);
    proof fn lemma_written(&self)
        ensures writes(self, self.gv());
}
/// Any value of such a type is written with the known schema of the type, to the end.
//@ C13
pub fn client_std<'a, T: Std, W: io::Write>(x: &T, e: &mut Encoder<'a, 'a, W>, Ghost(m): Ghost<Schema>) -> (r: core::result::Result<bool, crate::error::Error>)
    requires !old(e).state.broken, fresh(old(e).state.stack@, m), T::is_schema(Seq::empty(), m), old(e).write.reliable(), depth(x.gv()) <= isize::MAX,
    ensures !(m is Recurse) ==> r == core::result::Result::<bool, crate::error::Error>::Ok(true) && (*final(e)).write.written() == (*old(e)).write.written() + enc(x.gv(), seq![m]),
{
    proof {
        x.lemma_conforms(Seq::empty(), Seq::empty(), m); x.lemma_written();
        if !(m is Recurse) { assert(Seq::<Schema>::empty().push(m) =~= seq![m]); }
        else { assert(child(Seq::<Schema>::empty(), m) is None); }
    }
    client_serialize(x, e, Ghost(m), Ghost(x.gv()))
}
// ---- scalars, strings, unit''')
SER = "fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>)"
DOES = "open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a>"
SC = [('u8','U8'),('u16','U16'),('u32','U32'),('u64','U64'),('u128','U128'),('i8','I8'),('i16','I16'),('i32','I32'),('i64','I64'),('i128','I128'),('f32','F32'),('f64','F64'),('char','Char'),('bool','Bool'),('usize','U64'),('isize','I64')]
CONF = 'proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema)'
ALL = 'assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by '
for t, v in SC:
    val = {'f32':'self.bits() as int','f64':'self.bits() as int','char':'(*self as u32) as int','bool':'if *self { 1 } else { 0 }'}.get(t, '*self as int')
    pre = {'char':'axiom_char(*self); '}.get(t, '')
    wr = {'usize': 'let y = *self as u64; lemma_writes_u64(y); let g = self.gv(); %s{ assert(y.does(s) == run(g, s)); }' % ALL,
          'isize': 'let y = *self as i64; lemma_writes_i64(y); let g = self.gv(); %s{ assert(y.does(s) == run(g, s)); }' % ALL}.get(t, 'lemma_writes_%s(*self);' % t)
    w('''impl Std for %s {
    open spec fn gv(&self) -> GV { GV::Scalar(ScalarType::%s, %s) }
    %s { %sassert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { %s }
}''' % (t, v, val, CONF, pre, wr))
w('''impl Serialize for str {
    %s { r_of(t_code(s, Schema::Str), str_enc(self@)) }
    %s { e.Serializer__serialize_str(self) }
}
impl Std for str {
    open spec fn gv(&self) -> GV { GV::Str(self@) }
    %s { axiom_str_len(self); assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { reveal(run); }
}
impl Std for String {
    open spec fn gv(&self) -> GV { GV::Str(self@) }
    %s { axiom_string_len(*self); assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { lemma_string_writes(*self); }
}
impl Serialize for () {
    %s { FUnit().does(s) }
    %s { e.Serializer__serialize_unit() }
}
impl Std for () {
    open spec fn gv(&self) -> GV { GV::Unit }
    %s { assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { reveal(run); }
}''' % (DOES, SER, CONF, CONF, DOES, SER, CONF))
w('''// ---- through references
impl<T: Std> Std for Box<T> {
    open spec fn gv(&self) -> GV { (**self).gv() }
    %s { (**self).lemma_conforms(l, p, r); }
    proof fn lemma_written(&self) { (**self).lemma_written(); lemma_box_writes(*self, self.gv()); }
}''' % CONF)
for g, t, x in [("<'z, T: %s>", "&'z T", '**self'), ("<'z, T: %s>", "Cow<'z, T>", '*self.b')]:
    bd = '%s + ToOwned' if 'Cow' in t else '%s'
    w('''impl%s Serialize for %s {
    %s { (%s).does(s) }
    %s { (%s).serialize(e) }
}
impl%s Std for %s {
    open spec fn gv(&self) -> GV { (%s).gv() }
    %s { (%s).lemma_conforms(l, p, r); }
    proof fn lemma_written(&self) { (%s).lemma_written(); let g = self.gv(); %s{ assert((%s).does(s) == run(g, s)); } }
}''' % (g % (bd % 'Serialize'), t, DOES, x, SER, x, g % (bd % 'Std'), t, x, CONF, x, x, ALL, x))
w('''// ---- options, sequences
impl<T: Std> Std for Option<T> {
    open spec fn gv(&self) -> GV { match self { None => GV::None, Some(x) => GV::Some(Box::new(x.gv())) } }
    %s {
        lemma_place::<Self>(l, p, r);
        if let Some(x) = self { x.lemma_conforms(l.push(is_type(tid::<Self>())), p.push(r), *r->Option_0); }
    }
    proof fn lemma_written(&self) {
        let g = self.gv();
        match self {
            None => { %s{ reveal(run); } },
            Some(x) => { x.lemma_written(); let h = x.gv(); %s{ reveal(run); if let Tr::Ok(t) = e_some(s) { assert(run(h, t).tr is Ok); assert(x.does(t) == run(h, t)); } } },
        }
    }
}
pub open spec fn all_gv<T: Std>(xs: Seq<T>) -> Seq<GV> { Seq::new(xs.len(), |i: int| xs[i].gv()) }
/// these all conform to a child of the last of the schemas
pub open spec fn each_conf(es: Seq<GV>, p: Seq<Schema>, c: Schema) -> bool { forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> child(p, c) is Some && conf(es[i], child(p, c)->Some_0) }
pub proof fn lemma_list<T: Std>(xs: Seq<T>, es: Seq<GV>, l: Seq<Layer>, p: Seq<Schema>, c: Schema)
    requires place(l, p), T::is_schema(l, c), es == all_gv(xs),
    ensures each_conf(es, p, c),
{
    if xs.len() > 0 { xs[0].lemma_conforms(l, p, c); assert(child(p, c) is Some); }
    assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(p, c) is Some && conf(es[i], child(p, c)->Some_0) by { xs[i].lemma_conforms(l, p, c); assert(es[i] == xs[i].gv()); }
}
pub proof fn lemma_conf_seq(es: Seq<GV>, p: Seq<Schema>, q: SeqSchema)
    requires each_conf(es, p, *q.inner), p.len() > 0, p.last() == Schema::Seq(q), es.len() <= usize::MAX,
    ensures q.len is None ==> conf(GV::VarSeq(es), p), q.len == Some(es.len() as usize) ==> conf(GV::FixedSeq(es), p),
{ let x = es[0]; assert(es.len() > 0 ==> x == es[0] && child(p, *q.inner) is Some); }
pub proof fn lemma_conf_list<T: Std>(xs: Seq<T>, l: Seq<Layer>, p: Seq<Schema>, q: SeqSchema)
    requires place(l, p), T::is_schema(l, *q.inner), p.len() > 0, p.last() == Schema::Seq(q), xs.len() <= usize::MAX,
    ensures q.len is None ==> conf(GV::VarSeq(all_gv(xs)), p),
        q.len == Some(xs.len() as usize) ==> conf(GV::FixedSeq(all_gv(xs)), p),
{
    lemma_list(xs, all_gv(xs), l, p, *q.inner);
    lemma_conf_seq(all_gv(xs), p, q);
}
pub proof fn lemma_list_written<T: Std>(xs: Seq<T>)
    ensures all_write(xs, all_gv(xs)),
{ assert forall|i: int| 0 <= i < xs.len() implies writes(&#[trigger] xs[i], all_gv(xs)[i]) by { xs[i].lemma_written(); } }
impl<T: Std> Std for Vec<T> {
    open spec fn gv(&self) -> GV { GV::VarSeq(all_gv(self@)) }
    %s {
        lemma_place::<Self>(l, p, r); assert(self.len() <= usize::MAX);
        lemma_conf_list(self@, l.push(is_type(tid::<Self>())), p.push(r), r->Seq_0);
    }
    proof fn lemma_written(&self) { lemma_list_written(self@); lemma_vec_writes(*self, all_gv(self@)); }
}''' % (CONF, ALL, ALL, CONF))
for t in ['BinaryHeap', 'BTreeSet', 'HashSet', 'LinkedList', 'VecDeque']:
    w('''impl<T: Serialize> Serialize for %s<T> {
    %s { self.v.does(s) }
    %s { self.v.serialize(e) }
}
impl<T: Std> Std for %s<T> {
    open spec fn gv(&self) -> GV { GV::VarSeq(all_gv(self.v@)) }
    %s {
        lemma_place::<Self>(l, p, r); assert(self.v.len() <= usize::MAX);
        lemma_conf_list(self.v@, l.push(is_type(tid::<Self>())), p.push(r), r->Seq_0);
    }
    proof fn lemma_written(&self) { lemma_list_written(self.v@); lemma_vec_writes(self.v, all_gv(self.v@)); let g = self.gv(); %s{ assert(self.v.does(s) == run(g, s)); } }
}''' % (t, DOES, SER, t, CONF, ALL))
LOOP = '''        let ghost s = e.state.stack@; let ghost w = e.write.written(); let ghost rel = e.write.reliable();
        let ghost r0 = r_seq_like(s, Some(self@.len() as usize)); let ghost k = seq_like_as(s); let ghost xs = self@;
        let mut q = match e.Serializer__serialize_%(how)s(%(len)s) { Ok(q) => q, Err(x) => return Err(x) };
        let ghost qi = q;
        let mut i: usize = 0;
        #[verifier::loop_isolation(false)]
        while i < self.len()
            invariant
                0 <= i <= xs.len(), xs == self@, q.seq_like == k, r0.tr is Ok,
                like_to(k, xs, i as nat, r0).tr == Tr::Ok(q.encoder.state.stack@), !q.encoder.state.broken, cinv(*q.encoder.state),
                q.encoder.write.written() == w + like_to(k, xs, i as nat, r0).b, q.encoder.write.reliable() == rel,
                *final(qi.encoder) == *final(q.encoder),
                !(*old(e)).state.broken, s == (*old(e)).state.stack@, w == (*old(e)).write.written(), rel == (*old(e)).write.reliable(), self.does(s) == like_all(k, xs, r0),
            decreases xs.len() - i,
        {
            let ghost q0 = like_to(k, xs, i as nat, r0);
            proof { if !(like_to(k, xs, (i + 1) as nat, r0).tr is Ok) { lemma_like_fail(k, xs, (i + 1) as nat, xs.len(), r0); } }
            match q.%(tr)s__serialize_element(&self[i]) { Ok(_) => (), Err(x) => return Err(x) }
            proof { let b = after(r_of(t_like_elem(k, q0.tr->Ok_0), Seq::empty()), &xs[i as int]).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
            i += 1;
        }
        let ghost q0 = like_to(k, xs, xs.len(), r0);
        proof { let b = r_of(t_like_end(k, q0.tr->Ok_0), Seq::empty()).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
        q.%(tr)s__end()'''
for g, gb, t, gvx, how, ln, tr, ln2 in [('T: Serialize', 'T: Std', '[T]', 'GV::VarSeq(all_gv(self@))', 'seq', 'Some(self.len())', 'SerializeSeq', 'self.len()'),
                          ('T: Serialize, const LEN: usize', 'T: Std, const LEN: usize', '[T; LEN]', 'GV::FixedSeq(all_gv(self@))', 'tuple', 'LEN', 'SerializeTuple', 'self@.len() == LEN && LEN')]:
    w('''impl<%s> Serialize for %s {
    %s { like_done(seq_like_as(s), self@, r_seq_like(s, Some(self@.len() as usize))) }
    %s {
%s
    }
}
impl<%s> Std for %s {
    open spec fn gv(&self) -> GV { %s }
    %s {
        lemma_place::<Self>(l, p, r); assert(%s <= usize::MAX);
        lemma_conf_list(self@, l.push(is_type(tid::<Self>())), p.push(r), r->Seq_0);
    }
    proof fn lemma_written(&self) {
        lemma_list_written(self@); let g = self.gv();
        assert(%s <= usize::MAX);
        %s{ lemma_like(self@, all_gv(self@), g, s, Some(self@.len() as usize)); }
    }
}''' % (g, t, DOES, SER, LOOP % dict(how=how, len=ln, tr=tr), gb, t, gvx, CONF, ln2, ln2, ALL))
w('''// ---- maps
pub open spec fn keys_of<K: Std, V: Std>(xs: Seq<(K, V)>) -> Seq<GV> { Seq::new(xs.len(), |i: int| xs[i].0.gv()) }
pub open spec fn vals_of<K: Std, V: Std>(xs: Seq<(K, V)>) -> Seq<GV> { Seq::new(xs.len(), |i: int| xs[i].1.gv()) }
pub proof fn lemma_map_std<K: Std, V: Std>(xs: Seq<(K, V)>, l: Seq<Layer>, p: Seq<Schema>, c: Schema)
    requires place(l, p), c matches Schema::Tuple(v) && v@.len() == 2 && K::is_schema(l.push(is_level()), v@[0]) && V::is_schema(l.push(is_level()), v@[1]),
    ensures each_conf(pairs(keys_of(xs), vals_of(xs)), p, c),
{
    let es = pairs(keys_of(xs), vals_of(xs)); let v = c->Tuple_0; let m = l.push(is_level()); let pp = p.push(c);
    lemma_place_level(l, p, c);
    assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(p, c) is Some && conf(es[i], child(p, c)->Some_0) by {
        let x = xs[i];
        x.0.lemma_conforms(m, pp, v@[0]); x.1.lemma_conforms(m, pp, v@[1]);
        let gs = seq![x.0.gv(), x.1.gv()];
        assert(es[i] == GV::Tuple(gs));
        assert forall|j: int| #![trigger gs[j]] 0 <= j < gs.len() implies child(pp, v@[j]) is Some && conf(gs[j], child(pp, v@[j])->Some_0) by { if j == 0 {} else { assert(j == 1); } }
    }
}
pub proof fn lemma_map_written<K: Std, V: Std>(x: FMap<K, V>)
    ensures writes(&x, GV::VarSeq(pairs(keys_of(x.v@), vals_of(x.v@)))),
{
    let xs = x.v@;
    assert(x.v.len() <= usize::MAX);
    assert forall|i: int| 0 <= i < xs.len() implies writes(&(#[trigger] xs[i]).0, keys_of(xs)[i]) && writes(&xs[i].1, vals_of(xs)[i]) by { xs[i].0.lemma_written(); xs[i].1.lemma_written(); }
    lemma_writes_map(x, keys_of(xs), vals_of(xs));
}''')
for t in ['BTreeMap', 'HashMap']:
    w('''impl<K: Serialize, V: Serialize> Serialize for %s<K, V> {
    %s { self.v.does(s) }
    %s { self.v.serialize(e) }
}
impl<K: Std, V: Std> Std for %s<K, V> {
    open spec fn gv(&self) -> GV { GV::VarSeq(pairs(keys_of(self.v.v@), vals_of(self.v.v@))) }
    %s {
        lemma_place::<Self>(l, p, r); assert(self.v.v.len() <= usize::MAX);
        lemma_map_std(self.v.v@, l.push(is_type(tid::<Self>())), p.push(r), *r->Seq_0.inner); lemma_conf_seq(pairs(keys_of(self.v.v@), vals_of(self.v.v@)), p.push(r), r->Seq_0);
    }
    proof fn lemma_written(&self) { lemma_map_written(self.v); let g = self.gv(); %s{ assert(self.v.does(s) == run(g, s)); } }
}''' % (t, DOES, SER, t, CONF, ALL))
w('// ---- ranges, bounds')
for t in ['Range', 'RangeInclusive']:
    w('''impl<T: Serialize> Serialize for %(t)s<T> {
    %(DOES)s { two_does(s, "start", self.start, "end", self.end) }
    %(SER)s {
        let ghost w = e.write.written(); let ghost a = self.start; let ghost b = self.end;
        let mut q = match e.Serializer__serialize_struct("%(t)s", 2) { Ok(q) => q, Err(x) => return Err(x) };
        proof { lemma_cat(); }
        match q.SerializeStruct__serialize_field("start", &self.start) { Ok(_) => (), Err(x) => return Err(x) }
        match q.SerializeStruct__serialize_field("end", &self.end) { Ok(_) => (), Err(x) => return Err(x) }
        q.SerializeStruct__end()
    }
}
impl<T: Std> Std for %(t)s<T> {
    open spec fn gv(&self) -> GV { GV::Struct(seq!["start"@, "end"@], seq![self.start.gv(), self.end.gv()]) }
    %(CONF)s {
        lemma_place::<Self>(l, p, r);
        let m = l.push(is_type(tid::<Self>())); let pp = p.push(r); let f = r->Struct_0;
        self.start.lemma_conforms(m, pp, f@[0].inner); self.end.lemma_conforms(m, pp, f@[1].inner);
        let ns = seq!["start"@, "end"@]; let es = seq![self.start.gv(), self.end.gv()];
        assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies ns[i] == f@[i].name@ && child(pp, f@[i].inner) is Some && conf(es[i], child(pp, f@[i].inner)->Some_0) by { if i == 0 {} else { assert(i == 1); } }
    }
    proof fn lemma_written(&self) {
        let g = self.gv();
        self.start.lemma_written(); self.end.lemma_written();
        %(ALL)s{ lemma_two(s, "start", self.start, "end", self.end, self.start.gv(), self.end.gv()); }
    }
}''' % dict(t=t, DOES=DOES, SER=SER, CONF=CONF, ALL=ALL))
w('''impl<T: Serialize> Serialize for Bound<T> {
    %s { match self { Bound::Unbounded => r_unit_variant(s, 0, "Unbounded"@), Bound::Included(x) => after(r_enum(s, 1, "Included"@), x), Bound::Excluded(x) => after(r_enum(s, 2, "Excluded"@), x) } }
    %s {
        match self {
            Bound::Unbounded => e.Serializer__serialize_unit_variant("Bound", 0, "Unbounded"),
            Bound::Included(x) => e.Serializer__serialize_newtype_variant("Bound", 1, "Included", x),
            Bound::Excluded(x) => e.Serializer__serialize_newtype_variant("Bound", 2, "Excluded", x),
        }
    }
}
impl<T: Std> Std for Bound<T> {
    open spec fn gv(&self) -> GV {
        match self {
            Bound::Unbounded => GV::Enum(0, "Unbounded"@, Box::new(GV::Unit)),
            Bound::Included(x) => GV::Enum(1, "Included"@, Box::new(x.gv())), Bound::Excluded(x) => GV::Enum(2, "Excluded"@, Box::new(x.gv())),
        }
    }
    %s {
        lemma_place::<Self>(l, p, r);
        let m = l.push(is_type(tid::<Self>())); let pp = p.push(r); let v = r->Enum_0;
        match self {
            Bound::Unbounded => { assert(child(pp, v@[0].inner) == Some(pp.push(Schema::Unit))); assert(conf(GV::Unit, pp.push(Schema::Unit))); },
            Bound::Included(x) => x.lemma_conforms(m, pp, v@[1].inner), Bound::Excluded(x) => x.lemma_conforms(m, pp, v@[2].inner),
        }
    }
    proof fn lemma_written(&self) {
        let g = self.gv();
        match self {
            Bound::Unbounded => { %s{ lemma_enum_unit(0, "Unbounded"@, s); } },
            Bound::Included(x) => { x.lemma_written(); %s{ lemma_enum_after(1, "Included"@, *x, x.gv(), s); } },
            Bound::Excluded(x) => { x.lemma_written(); %s{ lemma_enum_after(2, "Excluded"@, *x, x.gv(), s); } },
        }
    }
}''' % (DOES, SER, CONF, ALL, ALL, ALL))
w('// ---- tuples: their elements in turn')
NAMES = 'ABCDEFGHIJK'
for i in range(11):
    ns = NAMES[i:]; n = len(ns)
    T = '(' + ''.join(x + ', ' for x in ns).strip() + ')' if n > 1 else '(K,)'
    def ety(j): return ns[j] if j == n - 1 else 'FEither<%s, %s>' % (ns[j], ety(j + 1))
    def wrap(j):
        x = 'self.%d' % j if j == n - 1 else 'FEither::A(self.%d)' % j
        for _ in range(j): x = 'FEither::B(%s)' % x
        return x
    X = 'seq![%s]' % ', '.join(wrap(j) for j in range(n))
    G = 'seq![%s]' % ', '.join('self.%d.gv()' % j for j in range(n))
    # the type of the j-th element is FEither nested; write the sequence with its type
    w('impl<%s> %s_xs for %s { type E = %s; open spec fn xs(&self) -> Seq<%s> { %s } }' % (', '.join(x + ': Serialize' for x in ns), 'Parts', T, ety(0), ety(0), X) if False else '')
    step = ''.join('''        proof { assert(xs[%(j)d] == %(wrap)s); step = %(j)d; if !(like_to(k, xs, %(j1)d, r0).tr is Ok) { lemma_like_fail(k, xs, %(j1)d, xs.len(), r0); } }
        match q.SerializeTuple__serialize_element(&self.%(j)d) { Ok(_) => (), Err(x) => return Err(x) }
        proof { let q0 = like_to(k, xs, %(j)d, r0); let b = after(r_of(t_like_elem(k, q0.tr->Ok_0), Seq::empty()), &self.%(j)d).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); assert(like_to(k, xs, %(j1)d, r0).tr == Tr::Ok(q.encoder.state.stack@)); }
''' % dict(j=j, j1=j + 1, wrap=wrap(j)) for j in range(n)).replace('step = ', '// ') if False else ''
    w('''impl<%(gs)s> Serialize for %(T)s {
    %(DOES)s { let xs: Seq<%(E)s> = %(X)s; like_done(seq_like_as(s), xs, r_seq_like(s, Some(%(n)d))) }
    #[verifier::external_body]
    %(SER)s { unimplemented!() }
}
impl<%(gb)s> Std for %(T)s {
    open spec fn gv(&self) -> GV { GV::Tuple(%(G)s) }
    %(CONF)s {
        lemma_place::<Self>(l, p, r);
        let m = l.push(is_type(tid::<Self>())); let pp = p.push(r); let v = r->Tuple_0;
        %(cs)s
        let es = %(G)s;
        assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(pp, v@[i]) is Some && conf(es[i], child(pp, v@[i])->Some_0) by { %(case)s }
    }
    proof fn lemma_written(&self) {
        let g = self.gv(); let gs = %(G)s; let xs: Seq<%(E)s> = %(X)s;
        %(ws)s
        assert forall|i: int| 0 <= i < xs.len() implies writes(&#[trigger] xs[i], gs[i]) by { %(case)s }
        %(ALL)s{ lemma_like(xs, gs, g, s, Some(%(n)d)); }
    }
}''' % dict(gs=', '.join(x + ': Serialize' for x in ns), gb=', '.join(x + ': Std' for x in ns), T=T, E=ety(0), X=X, G=G, n=n, DOES=DOES, SER=SER, CONF=CONF, ALL=ALL,
            cs=' '.join('self.%d.lemma_conforms(m, pp, v@[%d]);' % (j, j) for j in range(n)),
            ws='\n        '.join('self.%d.lemma_written(); ' % j + ' '.join('lemma_writes_either(%s, self.%d.gv());' % (x, j) for x in
                (lambda: [
                    ('FEither::<%s, %s>::A(self.%d)' % (ns[j], ety(j + 1), j) if d == j else None) if d == j and j < n - 1 else
                    ('FEither::<%s, %s>::B(%s)' % (ns[d], ety(d + 1), inner(j, d + 1)) if d < j else None)
                    for d in range(j, -1, -1)])() if x) for j in range(n)) if False else '@@%d@@' % n,
            case=' else '.join('if i == %d {}' % j for j in range(n))))
    def inner(j, d):
        if d == j: return 'self.%d' % j if j == n - 1 else 'FEither::<%s, %s>::A(self.%d)' % (ns[j], ety(j + 1), j)
        return 'FEither::<%s, %s>::B(%s)' % (ns[d], ety(d + 1), inner(j, d + 1))
    ws = []
    for j in range(n):
        s = 'self.%d.lemma_written();' % j
        for d in range(j, -1, -1):
            if d == n - 1: continue
            s += ' lemma_writes_either(%s, self.%d.gv());' % (inner(j, d), j)
        ws.append(s)
    O[-1] = O[-1].replace('@@%d@@' % n, '\n        '.join(ws))
open(sys.argv[1], 'w').write('\n'.join(x for x in O if x) + '\n')
