//@file C13
// ======== the standard types (written by tools/genstd.py)
// serde's impls for them, modelled by the calls they make (each body is verified to
// do what `does` says), with the value of FORMAT.txt each one is, which conforms to
// the known schema wherever in a schema tree that is, and is what they write.
/// A type, the known schema of which is the one serde uses for it.
pub trait Std: KnownSchema + Serialize {
    spec fn gv(&self) -> GV;
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
        requires place(l, p), Self::is_schema(l, r),
        ensures child(p, r) is Some, conf(self.gv(), child(p, r)->Some_0);
    proof fn lemma_written(&self)
        ensures writes(self, self.gv());
}
/// Any value of such a type is written with the known schema of the type, to the end.
//@ C13
pub fn client_std<'a, T: Std, W: io::Write>(x: &T, e: &mut Encoder<'a, 'a, W>, Ghost(m): Ghost<Schema>) -> (r: core::result::Result<bool, crate::error::Error>)
    requires !old(e).state.broken, fresh(old(e).state.stack@, m), T::is_schema(Seq::empty(), m), old(e).write.reliable(), depth(x.gv()) <= isize::MAX,
    ensures !(m is Recurse) ==> r == core::result::Result::<bool, crate::error::Error>::Ok(true) && (*final(e)).write.written() == (*old(e)).write.written() + enc(x.gv(), seq![m]),
{
    proof {
        x.lemma_conforms(Seq::empty(), Seq::empty(), m); x.lemma_written();
        if !(m is Recurse) { assert(Seq::<Schema>::empty().push(m) =~= seq![m]); }
        else { assert(child(Seq::<Schema>::empty(), m) is None); }
    }
    client_serialize(x, e, Ghost(m), Ghost(x.gv()))
}
// ---- scalars, strings, unit
impl Std for u8 {
    open spec fn gv(&self) -> GV { GV::Scalar(ScalarType::U8, *self as int) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { lemma_writes_u8(*self); }
}
impl Std for u16 {
    open spec fn gv(&self) -> GV { GV::Scalar(ScalarType::U16, *self as int) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { lemma_writes_u16(*self); }
}
impl Std for u32 {
    open spec fn gv(&self) -> GV { GV::Scalar(ScalarType::U32, *self as int) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { lemma_writes_u32(*self); }
}
impl Std for u64 {
    open spec fn gv(&self) -> GV { GV::Scalar(ScalarType::U64, *self as int) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { lemma_writes_u64(*self); }
}
impl Std for u128 {
    open spec fn gv(&self) -> GV { GV::Scalar(ScalarType::U128, *self as int) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { lemma_writes_u128(*self); }
}
impl Std for i8 {
    open spec fn gv(&self) -> GV { GV::Scalar(ScalarType::I8, *self as int) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { lemma_writes_i8(*self); }
}
impl Std for i16 {
    open spec fn gv(&self) -> GV { GV::Scalar(ScalarType::I16, *self as int) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { lemma_writes_i16(*self); }
}
impl Std for i32 {
    open spec fn gv(&self) -> GV { GV::Scalar(ScalarType::I32, *self as int) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { lemma_writes_i32(*self); }
}
impl Std for i64 {
    open spec fn gv(&self) -> GV { GV::Scalar(ScalarType::I64, *self as int) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { lemma_writes_i64(*self); }
}
impl Std for i128 {
    open spec fn gv(&self) -> GV { GV::Scalar(ScalarType::I128, *self as int) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { lemma_writes_i128(*self); }
}
impl Std for f32 {
    open spec fn gv(&self) -> GV { GV::Scalar(ScalarType::F32, self.bits() as int) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { lemma_writes_f32(*self); }
}
impl Std for f64 {
    open spec fn gv(&self) -> GV { GV::Scalar(ScalarType::F64, self.bits() as int) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { lemma_writes_f64(*self); }
}
impl Std for char {
    open spec fn gv(&self) -> GV { GV::Scalar(ScalarType::Char, (*self as u32) as int) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { axiom_char(*self); assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { lemma_writes_char(*self); }
}
impl Std for bool {
    open spec fn gv(&self) -> GV { GV::Scalar(ScalarType::Bool, if *self { 1 } else { 0 }) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { lemma_writes_bool(*self); }
}
impl Std for usize {
    open spec fn gv(&self) -> GV { GV::Scalar(ScalarType::U64, *self as int) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { let y = *self as u64; lemma_writes_u64(y); let g = self.gv(); assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { assert(y.does(s) == run(g, s)); } }
}
impl Std for isize {
    open spec fn gv(&self) -> GV { GV::Scalar(ScalarType::I64, *self as int) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { let y = *self as i64; lemma_writes_i64(y); let g = self.gv(); assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { assert(y.does(s) == run(g, s)); } }
}
impl Serialize for str {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Str), str_enc(self@)) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_str(self) }
}
impl Std for str {
    open spec fn gv(&self) -> GV { GV::Str(self@) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { axiom_str_len(self); assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { reveal(run); }
}
impl Std for String {
    open spec fn gv(&self) -> GV { GV::Str(self@) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { axiom_string_len(*self); assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { lemma_string_writes(*self); }
}
impl Serialize for () {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { FUnit().does(s) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_unit() }
}
impl Std for () {
    open spec fn gv(&self) -> GV { GV::Unit }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { assert(child(p, r) == Some(p.push(r))); }
    proof fn lemma_written(&self) { reveal(run); }
}
// ---- through references
impl<T: Std> Std for Box<T> {
    open spec fn gv(&self) -> GV { (**self).gv() }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { (**self).lemma_conforms(l, p, r); }
    proof fn lemma_written(&self) { (**self).lemma_written(); lemma_box_writes(*self, self.gv()); }
}
impl<'z, T: Serialize> Serialize for &'z T {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { (**self).does(s) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { (**self).serialize(e) }
}
impl<'z, T: Std> Std for &'z T {
    open spec fn gv(&self) -> GV { (**self).gv() }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { (**self).lemma_conforms(l, p, r); }
    proof fn lemma_written(&self) { (**self).lemma_written(); let g = self.gv(); assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { assert((**self).does(s) == run(g, s)); } }
}
impl<'z, T: Serialize + ToOwned> Serialize for Cow<'z, T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { (*self.b).does(s) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { (*self.b).serialize(e) }
}
impl<'z, T: Std + ToOwned> Std for Cow<'z, T> {
    open spec fn gv(&self) -> GV { (*self.b).gv() }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) { (*self.b).lemma_conforms(l, p, r); }
    proof fn lemma_written(&self) { (*self.b).lemma_written(); let g = self.gv(); assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { assert((*self.b).does(s) == run(g, s)); } }
}
// ---- options, sequences
impl<T: Std> Std for Option<T> {
    open spec fn gv(&self) -> GV { match self { None => GV::None, Some(x) => GV::Some(Box::new(x.gv())) } }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r);
        if let Some(x) = self { x.lemma_conforms(l.push(is_type(tid::<Self>())), p.push(r), *r->Option_0); }
    }
    proof fn lemma_written(&self) {
        let g = self.gv();
        match self {
            None => { assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { reveal(run); } },
            Some(x) => { x.lemma_written(); let h = x.gv(); assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { reveal(run); if let Tr::Ok(t) = e_some(s) { assert(run(h, t).tr is Ok); assert(x.does(t) == run(h, t)); } } },
        }
    }
}
pub open spec fn all_gv<T: Std>(xs: Seq<T>) -> Seq<GV> { Seq::new(xs.len(), |i: int| xs[i].gv()) }
/// these all conform to a child of the last of the schemas
pub open spec fn each_conf(es: Seq<GV>, p: Seq<Schema>, c: Schema) -> bool { forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> child(p, c) is Some && conf(es[i], child(p, c)->Some_0) }
pub proof fn lemma_list<T: Std>(xs: Seq<T>, es: Seq<GV>, l: Seq<Layer>, p: Seq<Schema>, c: Schema)
    requires place(l, p), T::is_schema(l, c), es == all_gv(xs),
    ensures each_conf(es, p, c),
{
    if xs.len() > 0 { xs[0].lemma_conforms(l, p, c); assert(child(p, c) is Some); }
    assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(p, c) is Some && conf(es[i], child(p, c)->Some_0) by { xs[i].lemma_conforms(l, p, c); assert(es[i] == xs[i].gv()); }
}
pub proof fn lemma_conf_seq(es: Seq<GV>, p: Seq<Schema>, q: SeqSchema)
    requires each_conf(es, p, *q.inner), p.len() > 0, p.last() == Schema::Seq(q), es.len() <= usize::MAX,
    ensures q.len is None ==> conf(GV::VarSeq(es), p), q.len == Some(es.len() as usize) ==> conf(GV::FixedSeq(es), p),
{ let x = es[0]; assert(es.len() > 0 ==> x == es[0] && child(p, *q.inner) is Some); }
pub proof fn lemma_conf_list<T: Std>(xs: Seq<T>, l: Seq<Layer>, p: Seq<Schema>, q: SeqSchema)
    requires place(l, p), T::is_schema(l, *q.inner), p.len() > 0, p.last() == Schema::Seq(q), xs.len() <= usize::MAX,
    ensures q.len is None ==> conf(GV::VarSeq(all_gv(xs)), p),
        q.len == Some(xs.len() as usize) ==> conf(GV::FixedSeq(all_gv(xs)), p),
{
    lemma_list(xs, all_gv(xs), l, p, *q.inner);
    lemma_conf_seq(all_gv(xs), p, q);
}
pub proof fn lemma_list_written<T: Std>(xs: Seq<T>)
    ensures all_write(xs, all_gv(xs)),
{ assert forall|i: int| 0 <= i < xs.len() implies writes(&#[trigger] xs[i], all_gv(xs)[i]) by { xs[i].lemma_written(); } }
impl<T: Std> Std for Vec<T> {
    open spec fn gv(&self) -> GV { GV::VarSeq(all_gv(self@)) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r); assert(self.len() <= usize::MAX);
        lemma_conf_list(self@, l.push(is_type(tid::<Self>())), p.push(r), r->Seq_0);
    }
    proof fn lemma_written(&self) { lemma_list_written(self@); lemma_vec_writes(*self, all_gv(self@)); }
}
impl<T: Serialize> Serialize for BinaryHeap<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { self.v.does(s) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { self.v.serialize(e) }
}
impl<T: Std> Std for BinaryHeap<T> {
    open spec fn gv(&self) -> GV { GV::VarSeq(all_gv(self.v@)) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r); assert(self.v.len() <= usize::MAX);
        lemma_conf_list(self.v@, l.push(is_type(tid::<Self>())), p.push(r), r->Seq_0);
    }
    proof fn lemma_written(&self) { lemma_list_written(self.v@); lemma_vec_writes(self.v, all_gv(self.v@)); let g = self.gv(); assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { assert(self.v.does(s) == run(g, s)); } }
}
impl<T: Serialize> Serialize for BTreeSet<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { self.v.does(s) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { self.v.serialize(e) }
}
impl<T: Std> Std for BTreeSet<T> {
    open spec fn gv(&self) -> GV { GV::VarSeq(all_gv(self.v@)) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r); assert(self.v.len() <= usize::MAX);
        lemma_conf_list(self.v@, l.push(is_type(tid::<Self>())), p.push(r), r->Seq_0);
    }
    proof fn lemma_written(&self) { lemma_list_written(self.v@); lemma_vec_writes(self.v, all_gv(self.v@)); let g = self.gv(); assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { assert(self.v.does(s) == run(g, s)); } }
}
impl<T: Serialize> Serialize for HashSet<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { self.v.does(s) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { self.v.serialize(e) }
}
impl<T: Std> Std for HashSet<T> {
    open spec fn gv(&self) -> GV { GV::VarSeq(all_gv(self.v@)) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r); assert(self.v.len() <= usize::MAX);
        lemma_conf_list(self.v@, l.push(is_type(tid::<Self>())), p.push(r), r->Seq_0);
    }
    proof fn lemma_written(&self) { lemma_list_written(self.v@); lemma_vec_writes(self.v, all_gv(self.v@)); let g = self.gv(); assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { assert(self.v.does(s) == run(g, s)); } }
}
impl<T: Serialize> Serialize for LinkedList<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { self.v.does(s) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { self.v.serialize(e) }
}
impl<T: Std> Std for LinkedList<T> {
    open spec fn gv(&self) -> GV { GV::VarSeq(all_gv(self.v@)) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r); assert(self.v.len() <= usize::MAX);
        lemma_conf_list(self.v@, l.push(is_type(tid::<Self>())), p.push(r), r->Seq_0);
    }
    proof fn lemma_written(&self) { lemma_list_written(self.v@); lemma_vec_writes(self.v, all_gv(self.v@)); let g = self.gv(); assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { assert(self.v.does(s) == run(g, s)); } }
}
impl<T: Serialize> Serialize for VecDeque<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { self.v.does(s) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { self.v.serialize(e) }
}
impl<T: Std> Std for VecDeque<T> {
    open spec fn gv(&self) -> GV { GV::VarSeq(all_gv(self.v@)) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r); assert(self.v.len() <= usize::MAX);
        lemma_conf_list(self.v@, l.push(is_type(tid::<Self>())), p.push(r), r->Seq_0);
    }
    proof fn lemma_written(&self) { lemma_list_written(self.v@); lemma_vec_writes(self.v, all_gv(self.v@)); let g = self.gv(); assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { assert(self.v.does(s) == run(g, s)); } }
}
impl<T: Serialize> Serialize for [T] {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { like_done(seq_like_as(s), self@, r_seq_like(s, Some(self@.len() as usize))) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) {
        let ghost s = e.state.stack@; let ghost w = e.write.written(); let ghost rel = e.write.reliable();
        let ghost r0 = r_seq_like(s, Some(self@.len() as usize)); let ghost k = seq_like_as(s); let ghost xs = self@;
        let mut q = match e.Serializer__serialize_seq(Some(self.len())) { Ok(q) => q, Err(x) => return Err(x) };
        let ghost qi = q;
        let mut i: usize = 0;
        #[verifier::loop_isolation(false)]
        while i < self.len()
            invariant
                0 <= i <= xs.len(), xs == self@, q.seq_like == k, r0.tr is Ok,
                like_to(k, xs, i as nat, r0).tr == Tr::Ok(q.encoder.state.stack@), !q.encoder.state.broken, cinv(*q.encoder.state),
                q.encoder.write.written() == w + like_to(k, xs, i as nat, r0).b, q.encoder.write.reliable() == rel,
                *final(qi.encoder) == *final(q.encoder),
                !(*old(e)).state.broken, s == (*old(e)).state.stack@, w == (*old(e)).write.written(), rel == (*old(e)).write.reliable(), self.does(s) == like_all(k, xs, r0),
            decreases xs.len() - i,
        {
            let ghost q0 = like_to(k, xs, i as nat, r0);
            proof { if !(like_to(k, xs, (i + 1) as nat, r0).tr is Ok) { lemma_like_fail(k, xs, (i + 1) as nat, xs.len(), r0); } }
            match q.SerializeSeq__serialize_element(&self[i]) { Ok(_) => (), Err(x) => return Err(x) }
            proof { let b = after(r_of(t_like_elem(k, q0.tr->Ok_0), Seq::empty()), &xs[i as int]).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
            i += 1;
        }
        let ghost q0 = like_to(k, xs, xs.len(), r0);
        proof { let b = r_of(t_like_end(k, q0.tr->Ok_0), Seq::empty()).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
        q.SerializeSeq__end()
    }
}
impl<T: Std> Std for [T] {
    open spec fn gv(&self) -> GV { GV::VarSeq(all_gv(self@)) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r); assert(self.len() <= usize::MAX);
        lemma_conf_list(self@, l.push(is_type(tid::<Self>())), p.push(r), r->Seq_0);
    }
    proof fn lemma_written(&self) {
        lemma_list_written(self@); let g = self.gv();
        assert(self.len() <= usize::MAX);
        assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { lemma_like(self@, all_gv(self@), g, s, Some(self@.len() as usize)); }
    }
}
impl<T: Serialize, const LEN: usize> Serialize for [T; LEN] {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { like_done(seq_like_as(s), self@, r_seq_like(s, Some(self@.len() as usize))) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) {
        let ghost s = e.state.stack@; let ghost w = e.write.written(); let ghost rel = e.write.reliable();
        let ghost r0 = r_seq_like(s, Some(self@.len() as usize)); let ghost k = seq_like_as(s); let ghost xs = self@;
        let mut q = match e.Serializer__serialize_tuple(LEN) { Ok(q) => q, Err(x) => return Err(x) };
        let ghost qi = q;
        let mut i: usize = 0;
        #[verifier::loop_isolation(false)]
        while i < self.len()
            invariant
                0 <= i <= xs.len(), xs == self@, q.seq_like == k, r0.tr is Ok,
                like_to(k, xs, i as nat, r0).tr == Tr::Ok(q.encoder.state.stack@), !q.encoder.state.broken, cinv(*q.encoder.state),
                q.encoder.write.written() == w + like_to(k, xs, i as nat, r0).b, q.encoder.write.reliable() == rel,
                *final(qi.encoder) == *final(q.encoder),
                !(*old(e)).state.broken, s == (*old(e)).state.stack@, w == (*old(e)).write.written(), rel == (*old(e)).write.reliable(), self.does(s) == like_all(k, xs, r0),
            decreases xs.len() - i,
        {
            let ghost q0 = like_to(k, xs, i as nat, r0);
            proof { if !(like_to(k, xs, (i + 1) as nat, r0).tr is Ok) { lemma_like_fail(k, xs, (i + 1) as nat, xs.len(), r0); } }
            match q.SerializeTuple__serialize_element(&self[i]) { Ok(_) => (), Err(x) => return Err(x) }
            proof { let b = after(r_of(t_like_elem(k, q0.tr->Ok_0), Seq::empty()), &xs[i as int]).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
            i += 1;
        }
        let ghost q0 = like_to(k, xs, xs.len(), r0);
        proof { let b = r_of(t_like_end(k, q0.tr->Ok_0), Seq::empty()).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
        q.SerializeTuple__end()
    }
}
impl<T: Std, const LEN: usize> Std for [T; LEN] {
    open spec fn gv(&self) -> GV { GV::FixedSeq(all_gv(self@)) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r); assert(self@.len() == LEN && LEN <= usize::MAX);
        lemma_conf_list(self@, l.push(is_type(tid::<Self>())), p.push(r), r->Seq_0);
    }
    proof fn lemma_written(&self) {
        lemma_list_written(self@); let g = self.gv();
        assert(self@.len() == LEN && LEN <= usize::MAX);
        assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { lemma_like(self@, all_gv(self@), g, s, Some(self@.len() as usize)); }
    }
}
// ---- maps
pub open spec fn keys_of<K: Std, V: Std>(xs: Seq<(K, V)>) -> Seq<GV> { Seq::new(xs.len(), |i: int| xs[i].0.gv()) }
pub open spec fn vals_of<K: Std, V: Std>(xs: Seq<(K, V)>) -> Seq<GV> { Seq::new(xs.len(), |i: int| xs[i].1.gv()) }
pub proof fn lemma_map_std<K: Std, V: Std>(xs: Seq<(K, V)>, l: Seq<Layer>, p: Seq<Schema>, c: Schema)
    requires place(l, p), c matches Schema::Tuple(v) && v@.len() == 2 && K::is_schema(l.push(is_level()), v@[0]) && V::is_schema(l.push(is_level()), v@[1]),
    ensures each_conf(pairs(keys_of(xs), vals_of(xs)), p, c),
{
    let es = pairs(keys_of(xs), vals_of(xs)); let v = c->Tuple_0; let m = l.push(is_level()); let pp = p.push(c);
    lemma_place_level(l, p, c);
    assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(p, c) is Some && conf(es[i], child(p, c)->Some_0) by {
        let x = xs[i];
        x.0.lemma_conforms(m, pp, v@[0]); x.1.lemma_conforms(m, pp, v@[1]);
        let gs = seq![x.0.gv(), x.1.gv()];
        assert(es[i] == GV::Tuple(gs));
        assert forall|j: int| #![trigger gs[j]] 0 <= j < gs.len() implies child(pp, v@[j]) is Some && conf(gs[j], child(pp, v@[j])->Some_0) by { if j == 0 {} else { assert(j == 1); } }
    }
}
pub proof fn lemma_map_written<K: Std, V: Std>(x: FMap<K, V>)
    ensures writes(&x, GV::VarSeq(pairs(keys_of(x.v@), vals_of(x.v@)))),
{
    let xs = x.v@;
    assert(x.v.len() <= usize::MAX);
    assert forall|i: int| 0 <= i < xs.len() implies writes(&(#[trigger] xs[i]).0, keys_of(xs)[i]) && writes(&xs[i].1, vals_of(xs)[i]) by { xs[i].0.lemma_written(); xs[i].1.lemma_written(); }
    lemma_writes_map(x, keys_of(xs), vals_of(xs));
}
impl<K: Serialize, V: Serialize> Serialize for BTreeMap<K, V> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { self.v.does(s) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { self.v.serialize(e) }
}
impl<K: Std, V: Std> Std for BTreeMap<K, V> {
    open spec fn gv(&self) -> GV { GV::VarSeq(pairs(keys_of(self.v.v@), vals_of(self.v.v@))) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r); assert(self.v.v.len() <= usize::MAX);
        lemma_map_std(self.v.v@, l.push(is_type(tid::<Self>())), p.push(r), *r->Seq_0.inner); lemma_conf_seq(pairs(keys_of(self.v.v@), vals_of(self.v.v@)), p.push(r), r->Seq_0);
    }
    proof fn lemma_written(&self) { lemma_map_written(self.v); let g = self.gv(); assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { assert(self.v.does(s) == run(g, s)); } }
}
impl<K: Serialize, V: Serialize> Serialize for HashMap<K, V> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { self.v.does(s) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { self.v.serialize(e) }
}
impl<K: Std, V: Std> Std for HashMap<K, V> {
    open spec fn gv(&self) -> GV { GV::VarSeq(pairs(keys_of(self.v.v@), vals_of(self.v.v@))) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r); assert(self.v.v.len() <= usize::MAX);
        lemma_map_std(self.v.v@, l.push(is_type(tid::<Self>())), p.push(r), *r->Seq_0.inner); lemma_conf_seq(pairs(keys_of(self.v.v@), vals_of(self.v.v@)), p.push(r), r->Seq_0);
    }
    proof fn lemma_written(&self) { lemma_map_written(self.v); let g = self.gv(); assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { assert(self.v.does(s) == run(g, s)); } }
}
// ---- ranges, bounds
impl<T: Serialize> Serialize for Range<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { two_does(s, "start", self.start, "end", self.end) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) {
        let ghost w = e.write.written(); let ghost a = self.start; let ghost b = self.end;
        let mut q = match e.Serializer__serialize_struct("Range", 2) { Ok(q) => q, Err(x) => return Err(x) };
        proof { lemma_cat(); }
        match q.SerializeStruct__serialize_field("start", &self.start) { Ok(_) => (), Err(x) => return Err(x) }
        match q.SerializeStruct__serialize_field("end", &self.end) { Ok(_) => (), Err(x) => return Err(x) }
        q.SerializeStruct__end()
    }
}
impl<T: Std> Std for Range<T> {
    open spec fn gv(&self) -> GV { GV::Struct(seq!["start"@, "end"@], seq![self.start.gv(), self.end.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r);
        let m = l.push(is_type(tid::<Self>())); let pp = p.push(r); let f = r->Struct_0;
        self.start.lemma_conforms(m, pp, f@[0].inner); self.end.lemma_conforms(m, pp, f@[1].inner);
        let ns = seq!["start"@, "end"@]; let es = seq![self.start.gv(), self.end.gv()];
        assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies ns[i] == f@[i].name@ && child(pp, f@[i].inner) is Some && conf(es[i], child(pp, f@[i].inner)->Some_0) by { if i == 0 {} else { assert(i == 1); } }
    }
    proof fn lemma_written(&self) {
        let g = self.gv();
        self.start.lemma_written(); self.end.lemma_written();
        assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { lemma_two(s, "start", self.start, "end", self.end, self.start.gv(), self.end.gv()); }
    }
}
impl<T: Serialize> Serialize for RangeInclusive<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { two_does(s, "start", self.start, "end", self.end) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) {
        let ghost w = e.write.written(); let ghost a = self.start; let ghost b = self.end;
        let mut q = match e.Serializer__serialize_struct("RangeInclusive", 2) { Ok(q) => q, Err(x) => return Err(x) };
        proof { lemma_cat(); }
        match q.SerializeStruct__serialize_field("start", &self.start) { Ok(_) => (), Err(x) => return Err(x) }
        match q.SerializeStruct__serialize_field("end", &self.end) { Ok(_) => (), Err(x) => return Err(x) }
        q.SerializeStruct__end()
    }
}
impl<T: Std> Std for RangeInclusive<T> {
    open spec fn gv(&self) -> GV { GV::Struct(seq!["start"@, "end"@], seq![self.start.gv(), self.end.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r);
        let m = l.push(is_type(tid::<Self>())); let pp = p.push(r); let f = r->Struct_0;
        self.start.lemma_conforms(m, pp, f@[0].inner); self.end.lemma_conforms(m, pp, f@[1].inner);
        let ns = seq!["start"@, "end"@]; let es = seq![self.start.gv(), self.end.gv()];
        assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies ns[i] == f@[i].name@ && child(pp, f@[i].inner) is Some && conf(es[i], child(pp, f@[i].inner)->Some_0) by { if i == 0 {} else { assert(i == 1); } }
    }
    proof fn lemma_written(&self) {
        let g = self.gv();
        self.start.lemma_written(); self.end.lemma_written();
        assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { lemma_two(s, "start", self.start, "end", self.end, self.start.gv(), self.end.gv()); }
    }
}
impl<T: Serialize> Serialize for Bound<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { match self { Bound::Unbounded => r_unit_variant(s, 0, "Unbounded"@), Bound::Included(x) => after(r_enum(s, 1, "Included"@), x), Bound::Excluded(x) => after(r_enum(s, 2, "Excluded"@), x) } }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) {
        match self {
            Bound::Unbounded => e.Serializer__serialize_unit_variant("Bound", 0, "Unbounded"),
            Bound::Included(x) => e.Serializer__serialize_newtype_variant("Bound", 1, "Included", x),
            Bound::Excluded(x) => e.Serializer__serialize_newtype_variant("Bound", 2, "Excluded", x),
        }
    }
}
impl<T: Std> Std for Bound<T> {
    open spec fn gv(&self) -> GV {
        match self {
            Bound::Unbounded => GV::Enum(0, "Unbounded"@, Box::new(GV::Unit)),
            Bound::Included(x) => GV::Enum(1, "Included"@, Box::new(x.gv())), Bound::Excluded(x) => GV::Enum(2, "Excluded"@, Box::new(x.gv())),
        }
    }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r);
        let m = l.push(is_type(tid::<Self>())); let pp = p.push(r); let v = r->Enum_0;
        match self {
            Bound::Unbounded => { assert(child(pp, v@[0].inner) == Some(pp.push(Schema::Unit))); assert(conf(GV::Unit, pp.push(Schema::Unit))); },
            Bound::Included(x) => x.lemma_conforms(m, pp, v@[1].inner), Bound::Excluded(x) => x.lemma_conforms(m, pp, v@[2].inner),
        }
    }
    proof fn lemma_written(&self) {
        let g = self.gv();
        match self {
            Bound::Unbounded => { assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { lemma_enum_unit(0, "Unbounded"@, s); } },
            Bound::Included(x) => { x.lemma_written(); assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { lemma_enum_after(1, "Included"@, *x, x.gv(), s); } },
            Bound::Excluded(x) => { x.lemma_written(); assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { lemma_enum_after(2, "Excluded"@, *x, x.gv(), s); } },
        }
    }
}
// ---- tuples: their elements in turn
impl<A: Serialize, B: Serialize, C: Serialize, D: Serialize, E: Serialize, F: Serialize, G: Serialize, H: Serialize, I: Serialize, J: Serialize, K: Serialize> Serialize for (A, B, C, D, E, F, G, H, I, J, K,) {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { let xs: Seq<FEither<A, FEither<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>>> = seq![FEither::A(self.0), FEither::B(FEither::A(self.1)), FEither::B(FEither::B(FEither::A(self.2))), FEither::B(FEither::B(FEither::B(FEither::A(self.3)))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.4))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.5)))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.6))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.7)))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.8))))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.9)))))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(self.10))))))))))]; like_done(seq_like_as(s), xs, r_seq_like(s, Some(11))) }
    #[verifier::external_body]
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { unimplemented!() }
}
impl<A: Std, B: Std, C: Std, D: Std, E: Std, F: Std, G: Std, H: Std, I: Std, J: Std, K: Std> Std for (A, B, C, D, E, F, G, H, I, J, K,) {
    open spec fn gv(&self) -> GV { GV::Tuple(seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv(), self.6.gv(), self.7.gv(), self.8.gv(), self.9.gv(), self.10.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r);
        let m = l.push(is_type(tid::<Self>())); let pp = p.push(r); let v = r->Tuple_0;
        self.0.lemma_conforms(m, pp, v@[0]); self.1.lemma_conforms(m, pp, v@[1]); self.2.lemma_conforms(m, pp, v@[2]); self.3.lemma_conforms(m, pp, v@[3]); self.4.lemma_conforms(m, pp, v@[4]); self.5.lemma_conforms(m, pp, v@[5]); self.6.lemma_conforms(m, pp, v@[6]); self.7.lemma_conforms(m, pp, v@[7]); self.8.lemma_conforms(m, pp, v@[8]); self.9.lemma_conforms(m, pp, v@[9]); self.10.lemma_conforms(m, pp, v@[10]);
        let es = seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv(), self.6.gv(), self.7.gv(), self.8.gv(), self.9.gv(), self.10.gv()];
        assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(pp, v@[i]) is Some && conf(es[i], child(pp, v@[i])->Some_0) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else if i == 7 {} else if i == 8 {} else if i == 9 {} else if i == 10 {} }
    }
    proof fn lemma_written(&self) {
        let g = self.gv(); let gs = seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv(), self.6.gv(), self.7.gv(), self.8.gv(), self.9.gv(), self.10.gv()]; let xs: Seq<FEither<A, FEither<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>>> = seq![FEither::A(self.0), FEither::B(FEither::A(self.1)), FEither::B(FEither::B(FEither::A(self.2))), FEither::B(FEither::B(FEither::B(FEither::A(self.3)))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.4))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.5)))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.6))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.7)))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.8))))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.9)))))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(self.10))))))))))];
        self.0.lemma_written(); lemma_writes_either(FEither::<A, FEither<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>>::A(self.0), self.0.gv());
        self.1.lemma_written(); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::A(self.1), self.1.gv()); lemma_writes_either(FEither::<A, FEither<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>>::B(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::A(self.1)), self.1.gv());
        self.2.lemma_written(); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::A(self.2), self.2.gv()); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::A(self.2)), self.2.gv()); lemma_writes_either(FEither::<A, FEither<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>>::B(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::A(self.2))), self.2.gv());
        self.3.lemma_written(); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::A(self.3), self.3.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::A(self.3)), self.3.gv()); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::A(self.3))), self.3.gv()); lemma_writes_either(FEither::<A, FEither<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>>::B(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::A(self.3)))), self.3.gv());
        self.4.lemma_written(); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::A(self.4), self.4.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::A(self.4)), self.4.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::A(self.4))), self.4.gv()); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::A(self.4)))), self.4.gv()); lemma_writes_either(FEither::<A, FEither<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>>::B(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::A(self.4))))), self.4.gv());
        self.5.lemma_written(); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.5), self.5.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.5)), self.5.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.5))), self.5.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.5)))), self.5.gv()); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.5))))), self.5.gv()); lemma_writes_either(FEither::<A, FEither<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>>::B(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.5)))))), self.5.gv());
        self.6.lemma_written(); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.6), self.6.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.6)), self.6.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.6))), self.6.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.6)))), self.6.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.6))))), self.6.gv()); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.6)))))), self.6.gv()); lemma_writes_either(FEither::<A, FEither<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>>::B(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.6))))))), self.6.gv());
        self.7.lemma_written(); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::A(self.7), self.7.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.7)), self.7.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.7))), self.7.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.7)))), self.7.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.7))))), self.7.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.7)))))), self.7.gv()); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.7))))))), self.7.gv()); lemma_writes_either(FEither::<A, FEither<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>>::B(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.7)))))))), self.7.gv());
        self.8.lemma_written(); lemma_writes_either(FEither::<I, FEither<J, K>>::A(self.8), self.8.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.8)), self.8.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.8))), self.8.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.8)))), self.8.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.8))))), self.8.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.8)))))), self.8.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.8))))))), self.8.gv()); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.8)))))))), self.8.gv()); lemma_writes_either(FEither::<A, FEither<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>>::B(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.8))))))))), self.8.gv());
        self.9.lemma_written(); lemma_writes_either(FEither::<J, K>::A(self.9), self.9.gv()); lemma_writes_either(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.9)), self.9.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.9))), self.9.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.9)))), self.9.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.9))))), self.9.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.9)))))), self.9.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.9))))))), self.9.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.9)))))))), self.9.gv()); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.9))))))))), self.9.gv()); lemma_writes_either(FEither::<A, FEither<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>>::B(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.9)))))))))), self.9.gv());
        self.10.lemma_written(); lemma_writes_either(FEither::<J, K>::B(self.10), self.10.gv()); lemma_writes_either(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.10)), self.10.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.10))), self.10.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.10)))), self.10.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.10))))), self.10.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.10)))))), self.10.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.10))))))), self.10.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.10)))))))), self.10.gv()); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.10))))))))), self.10.gv()); lemma_writes_either(FEither::<A, FEither<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>>::B(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.10)))))))))), self.10.gv());
        assert forall|i: int| 0 <= i < xs.len() implies writes(&#[trigger] xs[i], gs[i]) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else if i == 7 {} else if i == 8 {} else if i == 9 {} else if i == 10 {} }
        assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { lemma_like(xs, gs, g, s, Some(11)); }
    }
}
impl<B: Serialize, C: Serialize, D: Serialize, E: Serialize, F: Serialize, G: Serialize, H: Serialize, I: Serialize, J: Serialize, K: Serialize> Serialize for (B, C, D, E, F, G, H, I, J, K,) {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { let xs: Seq<FEither<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>> = seq![FEither::A(self.0), FEither::B(FEither::A(self.1)), FEither::B(FEither::B(FEither::A(self.2))), FEither::B(FEither::B(FEither::B(FEither::A(self.3)))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.4))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.5)))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.6))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.7)))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.8))))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(self.9)))))))))]; like_done(seq_like_as(s), xs, r_seq_like(s, Some(10))) }
    #[verifier::external_body]
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { unimplemented!() }
}
impl<B: Std, C: Std, D: Std, E: Std, F: Std, G: Std, H: Std, I: Std, J: Std, K: Std> Std for (B, C, D, E, F, G, H, I, J, K,) {
    open spec fn gv(&self) -> GV { GV::Tuple(seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv(), self.6.gv(), self.7.gv(), self.8.gv(), self.9.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r);
        let m = l.push(is_type(tid::<Self>())); let pp = p.push(r); let v = r->Tuple_0;
        self.0.lemma_conforms(m, pp, v@[0]); self.1.lemma_conforms(m, pp, v@[1]); self.2.lemma_conforms(m, pp, v@[2]); self.3.lemma_conforms(m, pp, v@[3]); self.4.lemma_conforms(m, pp, v@[4]); self.5.lemma_conforms(m, pp, v@[5]); self.6.lemma_conforms(m, pp, v@[6]); self.7.lemma_conforms(m, pp, v@[7]); self.8.lemma_conforms(m, pp, v@[8]); self.9.lemma_conforms(m, pp, v@[9]);
        let es = seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv(), self.6.gv(), self.7.gv(), self.8.gv(), self.9.gv()];
        assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(pp, v@[i]) is Some && conf(es[i], child(pp, v@[i])->Some_0) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else if i == 7 {} else if i == 8 {} else if i == 9 {} }
    }
    proof fn lemma_written(&self) {
        let g = self.gv(); let gs = seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv(), self.6.gv(), self.7.gv(), self.8.gv(), self.9.gv()]; let xs: Seq<FEither<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>> = seq![FEither::A(self.0), FEither::B(FEither::A(self.1)), FEither::B(FEither::B(FEither::A(self.2))), FEither::B(FEither::B(FEither::B(FEither::A(self.3)))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.4))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.5)))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.6))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.7)))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.8))))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(self.9)))))))))];
        self.0.lemma_written(); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::A(self.0), self.0.gv());
        self.1.lemma_written(); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::A(self.1), self.1.gv()); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::A(self.1)), self.1.gv());
        self.2.lemma_written(); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::A(self.2), self.2.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::A(self.2)), self.2.gv()); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::A(self.2))), self.2.gv());
        self.3.lemma_written(); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::A(self.3), self.3.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::A(self.3)), self.3.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::A(self.3))), self.3.gv()); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::A(self.3)))), self.3.gv());
        self.4.lemma_written(); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.4), self.4.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.4)), self.4.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.4))), self.4.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.4)))), self.4.gv()); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.4))))), self.4.gv());
        self.5.lemma_written(); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.5), self.5.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.5)), self.5.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.5))), self.5.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.5)))), self.5.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.5))))), self.5.gv()); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.5)))))), self.5.gv());
        self.6.lemma_written(); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::A(self.6), self.6.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.6)), self.6.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.6))), self.6.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.6)))), self.6.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.6))))), self.6.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.6)))))), self.6.gv()); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.6))))))), self.6.gv());
        self.7.lemma_written(); lemma_writes_either(FEither::<I, FEither<J, K>>::A(self.7), self.7.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.7)), self.7.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.7))), self.7.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.7)))), self.7.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.7))))), self.7.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.7)))))), self.7.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.7))))))), self.7.gv()); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.7)))))))), self.7.gv());
        self.8.lemma_written(); lemma_writes_either(FEither::<J, K>::A(self.8), self.8.gv()); lemma_writes_either(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.8)), self.8.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.8))), self.8.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.8)))), self.8.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.8))))), self.8.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.8)))))), self.8.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.8))))))), self.8.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.8)))))))), self.8.gv()); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.8))))))))), self.8.gv());
        self.9.lemma_written(); lemma_writes_either(FEither::<J, K>::B(self.9), self.9.gv()); lemma_writes_either(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.9)), self.9.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.9))), self.9.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.9)))), self.9.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.9))))), self.9.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.9)))))), self.9.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.9))))))), self.9.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.9)))))))), self.9.gv()); lemma_writes_either(FEither::<B, FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>>::B(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.9))))))))), self.9.gv());
        assert forall|i: int| 0 <= i < xs.len() implies writes(&#[trigger] xs[i], gs[i]) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else if i == 7 {} else if i == 8 {} else if i == 9 {} }
        assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { lemma_like(xs, gs, g, s, Some(10)); }
    }
}
impl<C: Serialize, D: Serialize, E: Serialize, F: Serialize, G: Serialize, H: Serialize, I: Serialize, J: Serialize, K: Serialize> Serialize for (C, D, E, F, G, H, I, J, K,) {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { let xs: Seq<FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>> = seq![FEither::A(self.0), FEither::B(FEither::A(self.1)), FEither::B(FEither::B(FEither::A(self.2))), FEither::B(FEither::B(FEither::B(FEither::A(self.3)))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.4))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.5)))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.6))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.7)))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(self.8))))))))]; like_done(seq_like_as(s), xs, r_seq_like(s, Some(9))) }
    #[verifier::external_body]
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { unimplemented!() }
}
impl<C: Std, D: Std, E: Std, F: Std, G: Std, H: Std, I: Std, J: Std, K: Std> Std for (C, D, E, F, G, H, I, J, K,) {
    open spec fn gv(&self) -> GV { GV::Tuple(seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv(), self.6.gv(), self.7.gv(), self.8.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r);
        let m = l.push(is_type(tid::<Self>())); let pp = p.push(r); let v = r->Tuple_0;
        self.0.lemma_conforms(m, pp, v@[0]); self.1.lemma_conforms(m, pp, v@[1]); self.2.lemma_conforms(m, pp, v@[2]); self.3.lemma_conforms(m, pp, v@[3]); self.4.lemma_conforms(m, pp, v@[4]); self.5.lemma_conforms(m, pp, v@[5]); self.6.lemma_conforms(m, pp, v@[6]); self.7.lemma_conforms(m, pp, v@[7]); self.8.lemma_conforms(m, pp, v@[8]);
        let es = seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv(), self.6.gv(), self.7.gv(), self.8.gv()];
        assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(pp, v@[i]) is Some && conf(es[i], child(pp, v@[i])->Some_0) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else if i == 7 {} else if i == 8 {} }
    }
    proof fn lemma_written(&self) {
        let g = self.gv(); let gs = seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv(), self.6.gv(), self.7.gv(), self.8.gv()]; let xs: Seq<FEither<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>> = seq![FEither::A(self.0), FEither::B(FEither::A(self.1)), FEither::B(FEither::B(FEither::A(self.2))), FEither::B(FEither::B(FEither::B(FEither::A(self.3)))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.4))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.5)))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.6))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.7)))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(self.8))))))))];
        self.0.lemma_written(); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::A(self.0), self.0.gv());
        self.1.lemma_written(); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::A(self.1), self.1.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::A(self.1)), self.1.gv());
        self.2.lemma_written(); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::A(self.2), self.2.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::A(self.2)), self.2.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::A(self.2))), self.2.gv());
        self.3.lemma_written(); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.3), self.3.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.3)), self.3.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.3))), self.3.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.3)))), self.3.gv());
        self.4.lemma_written(); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.4), self.4.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.4)), self.4.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.4))), self.4.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.4)))), self.4.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.4))))), self.4.gv());
        self.5.lemma_written(); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::A(self.5), self.5.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.5)), self.5.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.5))), self.5.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.5)))), self.5.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.5))))), self.5.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.5)))))), self.5.gv());
        self.6.lemma_written(); lemma_writes_either(FEither::<I, FEither<J, K>>::A(self.6), self.6.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.6)), self.6.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.6))), self.6.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.6)))), self.6.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.6))))), self.6.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.6)))))), self.6.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.6))))))), self.6.gv());
        self.7.lemma_written(); lemma_writes_either(FEither::<J, K>::A(self.7), self.7.gv()); lemma_writes_either(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.7)), self.7.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.7))), self.7.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.7)))), self.7.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.7))))), self.7.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.7)))))), self.7.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.7))))))), self.7.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.7)))))))), self.7.gv());
        self.8.lemma_written(); lemma_writes_either(FEither::<J, K>::B(self.8), self.8.gv()); lemma_writes_either(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.8)), self.8.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.8))), self.8.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.8)))), self.8.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.8))))), self.8.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.8)))))), self.8.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.8))))))), self.8.gv()); lemma_writes_either(FEither::<C, FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>>::B(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.8)))))))), self.8.gv());
        assert forall|i: int| 0 <= i < xs.len() implies writes(&#[trigger] xs[i], gs[i]) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else if i == 7 {} else if i == 8 {} }
        assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { lemma_like(xs, gs, g, s, Some(9)); }
    }
}
impl<D: Serialize, E: Serialize, F: Serialize, G: Serialize, H: Serialize, I: Serialize, J: Serialize, K: Serialize> Serialize for (D, E, F, G, H, I, J, K,) {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { let xs: Seq<FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>> = seq![FEither::A(self.0), FEither::B(FEither::A(self.1)), FEither::B(FEither::B(FEither::A(self.2))), FEither::B(FEither::B(FEither::B(FEither::A(self.3)))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.4))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.5)))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.6))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(self.7)))))))]; like_done(seq_like_as(s), xs, r_seq_like(s, Some(8))) }
    #[verifier::external_body]
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { unimplemented!() }
}
impl<D: Std, E: Std, F: Std, G: Std, H: Std, I: Std, J: Std, K: Std> Std for (D, E, F, G, H, I, J, K,) {
    open spec fn gv(&self) -> GV { GV::Tuple(seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv(), self.6.gv(), self.7.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r);
        let m = l.push(is_type(tid::<Self>())); let pp = p.push(r); let v = r->Tuple_0;
        self.0.lemma_conforms(m, pp, v@[0]); self.1.lemma_conforms(m, pp, v@[1]); self.2.lemma_conforms(m, pp, v@[2]); self.3.lemma_conforms(m, pp, v@[3]); self.4.lemma_conforms(m, pp, v@[4]); self.5.lemma_conforms(m, pp, v@[5]); self.6.lemma_conforms(m, pp, v@[6]); self.7.lemma_conforms(m, pp, v@[7]);
        let es = seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv(), self.6.gv(), self.7.gv()];
        assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(pp, v@[i]) is Some && conf(es[i], child(pp, v@[i])->Some_0) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else if i == 7 {} }
    }
    proof fn lemma_written(&self) {
        let g = self.gv(); let gs = seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv(), self.6.gv(), self.7.gv()]; let xs: Seq<FEither<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>> = seq![FEither::A(self.0), FEither::B(FEither::A(self.1)), FEither::B(FEither::B(FEither::A(self.2))), FEither::B(FEither::B(FEither::B(FEither::A(self.3)))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.4))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.5)))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.6))))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(self.7)))))))];
        self.0.lemma_written(); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::A(self.0), self.0.gv());
        self.1.lemma_written(); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::A(self.1), self.1.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::A(self.1)), self.1.gv());
        self.2.lemma_written(); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.2), self.2.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.2)), self.2.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.2))), self.2.gv());
        self.3.lemma_written(); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.3), self.3.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.3)), self.3.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.3))), self.3.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.3)))), self.3.gv());
        self.4.lemma_written(); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::A(self.4), self.4.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.4)), self.4.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.4))), self.4.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.4)))), self.4.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.4))))), self.4.gv());
        self.5.lemma_written(); lemma_writes_either(FEither::<I, FEither<J, K>>::A(self.5), self.5.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.5)), self.5.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.5))), self.5.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.5)))), self.5.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.5))))), self.5.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.5)))))), self.5.gv());
        self.6.lemma_written(); lemma_writes_either(FEither::<J, K>::A(self.6), self.6.gv()); lemma_writes_either(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.6)), self.6.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.6))), self.6.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.6)))), self.6.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.6))))), self.6.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.6)))))), self.6.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.6))))))), self.6.gv());
        self.7.lemma_written(); lemma_writes_either(FEither::<J, K>::B(self.7), self.7.gv()); lemma_writes_either(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.7)), self.7.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.7))), self.7.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.7)))), self.7.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.7))))), self.7.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.7)))))), self.7.gv()); lemma_writes_either(FEither::<D, FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>>::B(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.7))))))), self.7.gv());
        assert forall|i: int| 0 <= i < xs.len() implies writes(&#[trigger] xs[i], gs[i]) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else if i == 7 {} }
        assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { lemma_like(xs, gs, g, s, Some(8)); }
    }
}
impl<E: Serialize, F: Serialize, G: Serialize, H: Serialize, I: Serialize, J: Serialize, K: Serialize> Serialize for (E, F, G, H, I, J, K,) {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { let xs: Seq<FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>> = seq![FEither::A(self.0), FEither::B(FEither::A(self.1)), FEither::B(FEither::B(FEither::A(self.2))), FEither::B(FEither::B(FEither::B(FEither::A(self.3)))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.4))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.5)))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(self.6))))))]; like_done(seq_like_as(s), xs, r_seq_like(s, Some(7))) }
    #[verifier::external_body]
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { unimplemented!() }
}
impl<E: Std, F: Std, G: Std, H: Std, I: Std, J: Std, K: Std> Std for (E, F, G, H, I, J, K,) {
    open spec fn gv(&self) -> GV { GV::Tuple(seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv(), self.6.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r);
        let m = l.push(is_type(tid::<Self>())); let pp = p.push(r); let v = r->Tuple_0;
        self.0.lemma_conforms(m, pp, v@[0]); self.1.lemma_conforms(m, pp, v@[1]); self.2.lemma_conforms(m, pp, v@[2]); self.3.lemma_conforms(m, pp, v@[3]); self.4.lemma_conforms(m, pp, v@[4]); self.5.lemma_conforms(m, pp, v@[5]); self.6.lemma_conforms(m, pp, v@[6]);
        let es = seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv(), self.6.gv()];
        assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(pp, v@[i]) is Some && conf(es[i], child(pp, v@[i])->Some_0) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} }
    }
    proof fn lemma_written(&self) {
        let g = self.gv(); let gs = seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv(), self.6.gv()]; let xs: Seq<FEither<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>> = seq![FEither::A(self.0), FEither::B(FEither::A(self.1)), FEither::B(FEither::B(FEither::A(self.2))), FEither::B(FEither::B(FEither::B(FEither::A(self.3)))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.4))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.5)))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(self.6))))))];
        self.0.lemma_written(); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::A(self.0), self.0.gv());
        self.1.lemma_written(); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.1), self.1.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.1)), self.1.gv());
        self.2.lemma_written(); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.2), self.2.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.2)), self.2.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.2))), self.2.gv());
        self.3.lemma_written(); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::A(self.3), self.3.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.3)), self.3.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.3))), self.3.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.3)))), self.3.gv());
        self.4.lemma_written(); lemma_writes_either(FEither::<I, FEither<J, K>>::A(self.4), self.4.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.4)), self.4.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.4))), self.4.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.4)))), self.4.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.4))))), self.4.gv());
        self.5.lemma_written(); lemma_writes_either(FEither::<J, K>::A(self.5), self.5.gv()); lemma_writes_either(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.5)), self.5.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.5))), self.5.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.5)))), self.5.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.5))))), self.5.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.5)))))), self.5.gv());
        self.6.lemma_written(); lemma_writes_either(FEither::<J, K>::B(self.6), self.6.gv()); lemma_writes_either(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.6)), self.6.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.6))), self.6.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.6)))), self.6.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.6))))), self.6.gv()); lemma_writes_either(FEither::<E, FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>>::B(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.6)))))), self.6.gv());
        assert forall|i: int| 0 <= i < xs.len() implies writes(&#[trigger] xs[i], gs[i]) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} }
        assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { lemma_like(xs, gs, g, s, Some(7)); }
    }
}
impl<F: Serialize, G: Serialize, H: Serialize, I: Serialize, J: Serialize, K: Serialize> Serialize for (F, G, H, I, J, K,) {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { let xs: Seq<FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>> = seq![FEither::A(self.0), FEither::B(FEither::A(self.1)), FEither::B(FEither::B(FEither::A(self.2))), FEither::B(FEither::B(FEither::B(FEither::A(self.3)))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.4))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(self.5)))))]; like_done(seq_like_as(s), xs, r_seq_like(s, Some(6))) }
    #[verifier::external_body]
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { unimplemented!() }
}
impl<F: Std, G: Std, H: Std, I: Std, J: Std, K: Std> Std for (F, G, H, I, J, K,) {
    open spec fn gv(&self) -> GV { GV::Tuple(seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r);
        let m = l.push(is_type(tid::<Self>())); let pp = p.push(r); let v = r->Tuple_0;
        self.0.lemma_conforms(m, pp, v@[0]); self.1.lemma_conforms(m, pp, v@[1]); self.2.lemma_conforms(m, pp, v@[2]); self.3.lemma_conforms(m, pp, v@[3]); self.4.lemma_conforms(m, pp, v@[4]); self.5.lemma_conforms(m, pp, v@[5]);
        let es = seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv()];
        assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(pp, v@[i]) is Some && conf(es[i], child(pp, v@[i])->Some_0) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} }
    }
    proof fn lemma_written(&self) {
        let g = self.gv(); let gs = seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv()]; let xs: Seq<FEither<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>> = seq![FEither::A(self.0), FEither::B(FEither::A(self.1)), FEither::B(FEither::B(FEither::A(self.2))), FEither::B(FEither::B(FEither::B(FEither::A(self.3)))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::A(self.4))))), FEither::B(FEither::B(FEither::B(FEither::B(FEither::B(self.5)))))];
        self.0.lemma_written(); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::A(self.0), self.0.gv());
        self.1.lemma_written(); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.1), self.1.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.1)), self.1.gv());
        self.2.lemma_written(); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::A(self.2), self.2.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.2)), self.2.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.2))), self.2.gv());
        self.3.lemma_written(); lemma_writes_either(FEither::<I, FEither<J, K>>::A(self.3), self.3.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.3)), self.3.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.3))), self.3.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.3)))), self.3.gv());
        self.4.lemma_written(); lemma_writes_either(FEither::<J, K>::A(self.4), self.4.gv()); lemma_writes_either(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.4)), self.4.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.4))), self.4.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.4)))), self.4.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.4))))), self.4.gv());
        self.5.lemma_written(); lemma_writes_either(FEither::<J, K>::B(self.5), self.5.gv()); lemma_writes_either(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.5)), self.5.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.5))), self.5.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.5)))), self.5.gv()); lemma_writes_either(FEither::<F, FEither<G, FEither<H, FEither<I, FEither<J, K>>>>>::B(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.5))))), self.5.gv());
        assert forall|i: int| 0 <= i < xs.len() implies writes(&#[trigger] xs[i], gs[i]) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} }
        assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { lemma_like(xs, gs, g, s, Some(6)); }
    }
}
impl<G: Serialize, H: Serialize, I: Serialize, J: Serialize, K: Serialize> Serialize for (G, H, I, J, K,) {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { let xs: Seq<FEither<G, FEither<H, FEither<I, FEither<J, K>>>>> = seq![FEither::A(self.0), FEither::B(FEither::A(self.1)), FEither::B(FEither::B(FEither::A(self.2))), FEither::B(FEither::B(FEither::B(FEither::A(self.3)))), FEither::B(FEither::B(FEither::B(FEither::B(self.4))))]; like_done(seq_like_as(s), xs, r_seq_like(s, Some(5))) }
    #[verifier::external_body]
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { unimplemented!() }
}
impl<G: Std, H: Std, I: Std, J: Std, K: Std> Std for (G, H, I, J, K,) {
    open spec fn gv(&self) -> GV { GV::Tuple(seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r);
        let m = l.push(is_type(tid::<Self>())); let pp = p.push(r); let v = r->Tuple_0;
        self.0.lemma_conforms(m, pp, v@[0]); self.1.lemma_conforms(m, pp, v@[1]); self.2.lemma_conforms(m, pp, v@[2]); self.3.lemma_conforms(m, pp, v@[3]); self.4.lemma_conforms(m, pp, v@[4]);
        let es = seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv()];
        assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(pp, v@[i]) is Some && conf(es[i], child(pp, v@[i])->Some_0) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} }
    }
    proof fn lemma_written(&self) {
        let g = self.gv(); let gs = seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv()]; let xs: Seq<FEither<G, FEither<H, FEither<I, FEither<J, K>>>>> = seq![FEither::A(self.0), FEither::B(FEither::A(self.1)), FEither::B(FEither::B(FEither::A(self.2))), FEither::B(FEither::B(FEither::B(FEither::A(self.3)))), FEither::B(FEither::B(FEither::B(FEither::B(self.4))))];
        self.0.lemma_written(); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::A(self.0), self.0.gv());
        self.1.lemma_written(); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::A(self.1), self.1.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::A(self.1)), self.1.gv());
        self.2.lemma_written(); lemma_writes_either(FEither::<I, FEither<J, K>>::A(self.2), self.2.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.2)), self.2.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.2))), self.2.gv());
        self.3.lemma_written(); lemma_writes_either(FEither::<J, K>::A(self.3), self.3.gv()); lemma_writes_either(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.3)), self.3.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.3))), self.3.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.3)))), self.3.gv());
        self.4.lemma_written(); lemma_writes_either(FEither::<J, K>::B(self.4), self.4.gv()); lemma_writes_either(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.4)), self.4.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.4))), self.4.gv()); lemma_writes_either(FEither::<G, FEither<H, FEither<I, FEither<J, K>>>>::B(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.4)))), self.4.gv());
        assert forall|i: int| 0 <= i < xs.len() implies writes(&#[trigger] xs[i], gs[i]) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} }
        assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { lemma_like(xs, gs, g, s, Some(5)); }
    }
}
impl<H: Serialize, I: Serialize, J: Serialize, K: Serialize> Serialize for (H, I, J, K,) {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { let xs: Seq<FEither<H, FEither<I, FEither<J, K>>>> = seq![FEither::A(self.0), FEither::B(FEither::A(self.1)), FEither::B(FEither::B(FEither::A(self.2))), FEither::B(FEither::B(FEither::B(self.3)))]; like_done(seq_like_as(s), xs, r_seq_like(s, Some(4))) }
    #[verifier::external_body]
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { unimplemented!() }
}
impl<H: Std, I: Std, J: Std, K: Std> Std for (H, I, J, K,) {
    open spec fn gv(&self) -> GV { GV::Tuple(seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r);
        let m = l.push(is_type(tid::<Self>())); let pp = p.push(r); let v = r->Tuple_0;
        self.0.lemma_conforms(m, pp, v@[0]); self.1.lemma_conforms(m, pp, v@[1]); self.2.lemma_conforms(m, pp, v@[2]); self.3.lemma_conforms(m, pp, v@[3]);
        let es = seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv()];
        assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(pp, v@[i]) is Some && conf(es[i], child(pp, v@[i])->Some_0) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} }
    }
    proof fn lemma_written(&self) {
        let g = self.gv(); let gs = seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv()]; let xs: Seq<FEither<H, FEither<I, FEither<J, K>>>> = seq![FEither::A(self.0), FEither::B(FEither::A(self.1)), FEither::B(FEither::B(FEither::A(self.2))), FEither::B(FEither::B(FEither::B(self.3)))];
        self.0.lemma_written(); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::A(self.0), self.0.gv());
        self.1.lemma_written(); lemma_writes_either(FEither::<I, FEither<J, K>>::A(self.1), self.1.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::A(self.1)), self.1.gv());
        self.2.lemma_written(); lemma_writes_either(FEither::<J, K>::A(self.2), self.2.gv()); lemma_writes_either(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.2)), self.2.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.2))), self.2.gv());
        self.3.lemma_written(); lemma_writes_either(FEither::<J, K>::B(self.3), self.3.gv()); lemma_writes_either(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.3)), self.3.gv()); lemma_writes_either(FEither::<H, FEither<I, FEither<J, K>>>::B(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.3))), self.3.gv());
        assert forall|i: int| 0 <= i < xs.len() implies writes(&#[trigger] xs[i], gs[i]) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} }
        assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { lemma_like(xs, gs, g, s, Some(4)); }
    }
}
impl<I: Serialize, J: Serialize, K: Serialize> Serialize for (I, J, K,) {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { let xs: Seq<FEither<I, FEither<J, K>>> = seq![FEither::A(self.0), FEither::B(FEither::A(self.1)), FEither::B(FEither::B(self.2))]; like_done(seq_like_as(s), xs, r_seq_like(s, Some(3))) }
    #[verifier::external_body]
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { unimplemented!() }
}
impl<I: Std, J: Std, K: Std> Std for (I, J, K,) {
    open spec fn gv(&self) -> GV { GV::Tuple(seq![self.0.gv(), self.1.gv(), self.2.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r);
        let m = l.push(is_type(tid::<Self>())); let pp = p.push(r); let v = r->Tuple_0;
        self.0.lemma_conforms(m, pp, v@[0]); self.1.lemma_conforms(m, pp, v@[1]); self.2.lemma_conforms(m, pp, v@[2]);
        let es = seq![self.0.gv(), self.1.gv(), self.2.gv()];
        assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(pp, v@[i]) is Some && conf(es[i], child(pp, v@[i])->Some_0) by { if i == 0 {} else if i == 1 {} else if i == 2 {} }
    }
    proof fn lemma_written(&self) {
        let g = self.gv(); let gs = seq![self.0.gv(), self.1.gv(), self.2.gv()]; let xs: Seq<FEither<I, FEither<J, K>>> = seq![FEither::A(self.0), FEither::B(FEither::A(self.1)), FEither::B(FEither::B(self.2))];
        self.0.lemma_written(); lemma_writes_either(FEither::<I, FEither<J, K>>::A(self.0), self.0.gv());
        self.1.lemma_written(); lemma_writes_either(FEither::<J, K>::A(self.1), self.1.gv()); lemma_writes_either(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::A(self.1)), self.1.gv());
        self.2.lemma_written(); lemma_writes_either(FEither::<J, K>::B(self.2), self.2.gv()); lemma_writes_either(FEither::<I, FEither<J, K>>::B(FEither::<J, K>::B(self.2)), self.2.gv());
        assert forall|i: int| 0 <= i < xs.len() implies writes(&#[trigger] xs[i], gs[i]) by { if i == 0 {} else if i == 1 {} else if i == 2 {} }
        assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { lemma_like(xs, gs, g, s, Some(3)); }
    }
}
impl<J: Serialize, K: Serialize> Serialize for (J, K,) {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { let xs: Seq<FEither<J, K>> = seq![FEither::A(self.0), FEither::B(self.1)]; like_done(seq_like_as(s), xs, r_seq_like(s, Some(2))) }
    #[verifier::external_body]
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { unimplemented!() }
}
impl<J: Std, K: Std> Std for (J, K,) {
    open spec fn gv(&self) -> GV { GV::Tuple(seq![self.0.gv(), self.1.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r);
        let m = l.push(is_type(tid::<Self>())); let pp = p.push(r); let v = r->Tuple_0;
        self.0.lemma_conforms(m, pp, v@[0]); self.1.lemma_conforms(m, pp, v@[1]);
        let es = seq![self.0.gv(), self.1.gv()];
        assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(pp, v@[i]) is Some && conf(es[i], child(pp, v@[i])->Some_0) by { if i == 0 {} else if i == 1 {} }
    }
    proof fn lemma_written(&self) {
        let g = self.gv(); let gs = seq![self.0.gv(), self.1.gv()]; let xs: Seq<FEither<J, K>> = seq![FEither::A(self.0), FEither::B(self.1)];
        self.0.lemma_written(); lemma_writes_either(FEither::<J, K>::A(self.0), self.0.gv());
        self.1.lemma_written(); lemma_writes_either(FEither::<J, K>::B(self.1), self.1.gv());
        assert forall|i: int| 0 <= i < xs.len() implies writes(&#[trigger] xs[i], gs[i]) by { if i == 0 {} else if i == 1 {} }
        assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { lemma_like(xs, gs, g, s, Some(2)); }
    }
}
impl<K: Serialize> Serialize for (K,) {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { let xs: Seq<K> = seq![self.0]; like_done(seq_like_as(s), xs, r_seq_like(s, Some(1))) }
    #[verifier::external_body]
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { unimplemented!() }
}
impl<K: Std> Std for (K,) {
    open spec fn gv(&self) -> GV { GV::Tuple(seq![self.0.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        lemma_place::<Self>(l, p, r);
        let m = l.push(is_type(tid::<Self>())); let pp = p.push(r); let v = r->Tuple_0;
        self.0.lemma_conforms(m, pp, v@[0]);
        let es = seq![self.0.gv()];
        assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(pp, v@[i]) is Some && conf(es[i], child(pp, v@[i])->Some_0) by { if i == 0 {} }
    }
    proof fn lemma_written(&self) {
        let g = self.gv(); let gs = seq![self.0.gv()]; let xs: Seq<K> = seq![self.0];
        self.0.lemma_written();
        assert forall|i: int| 0 <= i < xs.len() implies writes(&#[trigger] xs[i], gs[i]) by { if i == 0 {} }
        assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies self.does(s) == run(g, s) by { lemma_like(xs, gs, g, s, Some(1)); }
    }
}
