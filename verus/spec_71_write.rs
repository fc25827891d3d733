//@file C12
// ======== what the forms of serde's data model do to a coder
// Serializing a value of any type is a tree of the forms below: serde and its
// derive call the serializer in no other way. Each form is written here as serde
// writes it, verified against the contracts of the serializer, and proved to do to a
// coder what coding the value it stands for does (`writes`), if its parts do.

/// it does what coding this value of FORMAT.txt does
pub open spec fn writes<T: Serialize + ?Sized>(x: &T, g: GV) -> bool {
    forall|s: Seq<StackFrame>| #![trigger run(g, s)] #![trigger x.does(s)] run(g, s).tr is Ok ==> x.does(s) == run(g, s)
}

// ---- scalars
impl Serialize for u8 {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Scalar(ScalarType::U8)), le(self.bits(), 1)) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_u8(*self) }
}
impl Serialize for u16 {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Scalar(ScalarType::U16)), le(self.bits(), 2)) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_u16(*self) }
}
impl Serialize for u32 {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Scalar(ScalarType::U32)), uint_enc(*self as nat)) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_u32(*self) }
}
impl Serialize for u64 {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Scalar(ScalarType::U64)), uint_enc(*self as nat)) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_u64(*self) }
}
impl Serialize for u128 {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Scalar(ScalarType::U128)), uint_enc(*self as nat)) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_u128(*self) }
}
impl Serialize for i8 {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Scalar(ScalarType::I8)), le(self.bits(), 1)) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_i8(*self) }
}
impl Serialize for i16 {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Scalar(ScalarType::I16)), le(self.bits(), 2)) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_i16(*self) }
}
impl Serialize for i32 {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Scalar(ScalarType::I32)), sint_enc(*self as int)) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_i32(*self) }
}
impl Serialize for i64 {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Scalar(ScalarType::I64)), sint_enc(*self as int)) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_i64(*self) }
}
impl Serialize for i128 {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Scalar(ScalarType::I128)), sint_enc(*self as int)) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_i128(*self) }
}
impl Serialize for f32 {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Scalar(ScalarType::F32)), le(self.bits(), 4)) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_f32(*self) }
}
impl Serialize for f64 {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Scalar(ScalarType::F64)), le(self.bits(), 8)) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_f64(*self) }
}
impl Serialize for char {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Scalar(ScalarType::Char)), uint_enc(*self as nat)) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_char(*self) }
}
impl Serialize for bool {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Scalar(ScalarType::Bool)), seq![if *self { 1u8 } else { 0u8 }]) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_bool(*self) }
}
impl Serialize for usize {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { (*self as u64).does(s) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_u64(*self as u64) }
}
impl Serialize for isize {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { (*self as i64).does(s) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_i64(*self as i64) }
}
pub proof fn lemma_writes_u8(x: u8)
    ensures writes(&x, GV::Scalar(ScalarType::U8, x as int)),
{ reveal(run); }
pub proof fn lemma_writes_u16(x: u16)
    ensures writes(&x, GV::Scalar(ScalarType::U16, x as int)),
{ reveal(run); }
pub proof fn lemma_writes_u32(x: u32)
    ensures writes(&x, GV::Scalar(ScalarType::U32, x as int)),
{ reveal(run); }
pub proof fn lemma_writes_u64(x: u64)
    ensures writes(&x, GV::Scalar(ScalarType::U64, x as int)),
{ reveal(run); }
pub proof fn lemma_writes_u128(x: u128)
    ensures writes(&x, GV::Scalar(ScalarType::U128, x as int)),
{ reveal(run); }
pub proof fn lemma_writes_i8(x: i8)
    ensures writes(&x, GV::Scalar(ScalarType::I8, x as int)),
{ reveal(run); }
pub proof fn lemma_writes_i16(x: i16)
    ensures writes(&x, GV::Scalar(ScalarType::I16, x as int)),
{ reveal(run); }
pub proof fn lemma_writes_i32(x: i32)
    ensures writes(&x, GV::Scalar(ScalarType::I32, x as int)),
{ reveal(run); }
pub proof fn lemma_writes_i64(x: i64)
    ensures writes(&x, GV::Scalar(ScalarType::I64, x as int)),
{ reveal(run); }
pub proof fn lemma_writes_i128(x: i128)
    ensures writes(&x, GV::Scalar(ScalarType::I128, x as int)),
{ reveal(run); }
pub proof fn lemma_writes_f32(x: f32)
    ensures writes(&x, GV::Scalar(ScalarType::F32, x.bits() as int)),
{ reveal(run); }
pub proof fn lemma_writes_f64(x: f64)
    ensures writes(&x, GV::Scalar(ScalarType::F64, x.bits() as int)),
{ reveal(run); }
pub proof fn lemma_writes_char(x: char)
    ensures writes(&x, GV::Scalar(ScalarType::Char, (x as u32) as int)),
{ reveal(run); axiom_char(x); }
pub proof fn lemma_writes_bool(x: bool)
    ensures writes(&x, GV::Scalar(ScalarType::Bool, if x { 1 } else { 0 })),
{ reveal(run); }

// ---- strings, bytes, options, units, newtypes
impl Serialize for String {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Str), str_enc(self@)) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_str(self.as_str()) }
}
pub struct FBytes(pub Vec<u8>);
impl Serialize for FBytes {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Bytes), bytes_enc(self.0@)) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_bytes(self.0.as_slice()) }
}
pub enum FOption<T> { None, Some(T) }
impl<T: Serialize> Serialize for FOption<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { match self { FOption::None => r_of(e_none(s), seq![0u8]), FOption::Some(x) => after(r_of(e_some(s), seq![1u8]), x) } }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { match self { FOption::None => e.Serializer__serialize_none(), FOption::Some(x) => e.Serializer__serialize_some(x) } }
}
pub struct FUnit(); pub struct FUnitStruct(pub &'static str); pub struct FNewtype<T>(pub &'static str, pub T);
impl Serialize for FUnit {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Unit), Seq::empty()) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_unit() }
}
impl Serialize for FUnitStruct {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_of(t_code(s, Schema::Unit), Seq::empty()) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_unit_struct(self.0) }
}
impl<T: Serialize> Serialize for FNewtype<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { self.1.does(s) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_newtype_struct(self.0, &self.1) }
}
pub struct FUnitVariant(pub &'static str, pub u32, pub &'static str); pub struct FNewtypeVariant<T>(pub &'static str, pub u32, pub &'static str, pub T);
impl Serialize for FUnitVariant {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { r_unit_variant(s, self.1, self.2@) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_unit_variant(self.0, self.1, self.2) }
}
impl<T: Serialize> Serialize for FNewtypeVariant<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { after(r_enum(s, self.1, self.2@), &self.3) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { e.Serializer__serialize_newtype_variant(self.0, self.1, self.2, &self.3) }
}
/// one of two forms: what differs between the parts of a tuple, the variants of an enum
pub enum FEither<A, B> { A(A), B(B) }
impl<A: Serialize, B: Serialize> Serialize for FEither<A, B> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { match self { FEither::A(x) => x.does(s), FEither::B(x) => x.does(s) } }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) { match self { FEither::A(x) => x.serialize(e), FEither::B(x) => x.serialize(e) } }
}
pub proof fn lemma_writes_str(x: String)
    ensures writes(&x, GV::Str(x@)),
{ reveal(run); }
pub proof fn lemma_writes_bytes(x: FBytes)
    ensures writes(&x, GV::Bytes(x.0@)),
{ reveal(run); }
pub proof fn lemma_writes_none<T: Serialize>()
    ensures writes(&FOption::<T>::None, GV::None),
{ reveal(run); }
pub proof fn lemma_writes_some<T: Serialize>(x: T, g: GV)
    requires writes(&x, g),
    ensures writes(&FOption::Some(x), GV::Some(Box::new(g))),
{
    reveal(run);
    assert forall|s: Seq<StackFrame>| #![trigger run(GV::Some(Box::new(g)), s)] run(GV::Some(Box::new(g)), s).tr is Ok implies FOption::Some(x).does(s) == run(GV::Some(Box::new(g)), s) by {
        if let Tr::Ok(t) = e_some(s) { assert(run(g, t).tr is Ok); }
    }
}
pub proof fn lemma_writes_unit(n: &'static str)
    ensures writes(&FUnit(), GV::Unit), writes(&FUnitStruct(n), GV::Unit),
{ reveal(run); }
pub proof fn lemma_writes_newtype<T: Serialize>(n: &'static str, x: T, g: GV)
    requires writes(&x, g),
    ensures writes(&FNewtype(n, x), g),
{ assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies FNewtype(n, x).does(s) == run(g, s) by { assert(x.does(s) == run(g, s)); } }
pub proof fn lemma_writes_unit_variant(n: &'static str, i: u32, v: &'static str)
    ensures writes(&FUnitVariant(n, i, v), GV::Enum(i as nat, v@, Box::new(GV::Unit))),
{
    reveal(run);
    let g = GV::Enum(i as nat, v@, Box::new(GV::Unit));
    assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies FUnitVariant(n, i, v).does(s) == run(g, s) by {
        if let Tr::Ok(t) = e_enum(s, i as usize, v@) { assert(run(GV::Unit, t).tr is Ok); }
    }
}
pub proof fn lemma_writes_newtype_variant<T: Serialize>(n: &'static str, i: u32, v: &'static str, x: T, g: GV)
    requires writes(&x, g),
    ensures writes(&FNewtypeVariant(n, i, v, x), GV::Enum(i as nat, v@, Box::new(g))),
{
    reveal(run);
    let h = GV::Enum(i as nat, v@, Box::new(g));
    assert forall|s: Seq<StackFrame>| #![trigger run(h, s)] run(h, s).tr is Ok implies FNewtypeVariant(n, i, v, x).does(s) == run(h, s) by {
        if let Tr::Ok(t) = e_enum(s, i as usize, v@) { assert(run(g, t).tr is Ok); }
    }
}
pub proof fn lemma_writes_either<A: Serialize, B: Serialize>(x: FEither<A, B>, g: GV)
    requires match x { FEither::A(y) => writes(&y, g), FEither::B(y) => writes(&y, g) },
    ensures writes(&x, g),
{ assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies x.does(s) == run(g, s) by { match x { FEither::A(y) => { assert(y.does(s) == run(g, s)); } FEither::B(y) => { assert(y.does(s) == run(g, s)); } } } }

// ---- sequences, tuples, tuple structs and tuple variants
/// the first n elements
pub open spec fn like_to<'a, T: Serialize>(k: SerLike, xs: Seq<T>, n: nat, r: Run<'a>) -> Run<'a>
    decreases n,
{
    if n == 0 || n > xs.len() { r }
    else {
        let q = like_to(k, xs, (n - 1) as nat, r);
        match q.tr { Tr::Ok(t) => pre(q.b, after(r_of(t_like_elem(k, t), Seq::empty()), &xs[n - 1])), _ => q }
    }
}
pub proof fn lemma_like_fail<'a, T: Serialize>(k: SerLike, xs: Seq<T>, n: nat, m: nat, r: Run<'a>)
    requires n <= m <= xs.len(), !(like_to(k, xs, n, r).tr is Ok),
    ensures like_to(k, xs, m, r) == like_to(k, xs, n, r),
    decreases m,
{ if n < m { lemma_like_fail(k, xs, n, (m - 1) as nat, r); } }
/// all of them, and the end
pub open spec fn like_all<'a, T: Serialize>(k: SerLike, xs: Seq<T>, r: Run<'a>) -> Run<'a> {
    let q = like_to(k, xs, xs.len(), r);
    match q.tr { Tr::Ok(t) => pre(q.b, r_of(t_like_end(k, t), Seq::empty())), _ => q }
}
pub open spec fn like_done<'a, T: Serialize>(k: SerLike, xs: Seq<T>, r: Run<'a>) -> Run<'a> { match r.tr { Tr::Ok(t) => like_all(k, xs, r), _ => r } }

pub struct FSeq<T> { pub known: bool, pub v: Vec<T> }
impl<T: Serialize> Serialize for FSeq<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { like_done(seq_like_as(s), self.v@, r_seq_like(s, if self.known { Some(self.v@.len() as usize) } else { None })) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) {
        let ghost s = e.state.stack@; let ghost w = e.write.written(); let ghost rel = e.write.reliable();
        let ghost r0 = r_seq_like(s, if self.known { Some(self.v@.len() as usize) } else { None }); let ghost k = seq_like_as(s); let ghost xs = self.v@;
        let mut q = match e.Serializer__serialize_seq(if self.known { Some(self.v.len()) } else { None }) { Ok(q) => q, Err(x) => return Err(x) };
        let ghost qi = q;
        let mut i: usize = 0;
        #[verifier::loop_isolation(false)]
        while i < self.v.len()
            invariant
                0 <= i <= xs.len(), xs == self.v@, q.seq_like == k, r0.tr is Ok,
                like_to(k, xs, i as nat, r0).tr == Tr::Ok(q.encoder.state.stack@), !q.encoder.state.broken, cinv(*q.encoder.state),
                q.encoder.write.written() == w + like_to(k, xs, i as nat, r0).b, q.encoder.write.reliable() == rel,
                *final(qi.encoder) == *final(q.encoder),
                !(*old(e)).state.broken, s == (*old(e)).state.stack@, w == (*old(e)).write.written(), rel == (*old(e)).write.reliable(), self.does(s) == like_all(k, xs, r0),
            decreases xs.len() - i,
        {
            let ghost q0 = like_to(k, xs, i as nat, r0);
            proof { if !(like_to(k, xs, (i + 1) as nat, r0).tr is Ok) { lemma_like_fail(k, xs, (i + 1) as nat, xs.len(), r0); } }
            match q.SerializeSeq__serialize_element(&self.v[i]) { Ok(_) => (), Err(x) => return Err(x) }
            proof { let b = after(r_of(t_like_elem(k, q0.tr->Ok_0), Seq::empty()), &xs[i as int]).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
            i += 1;
        }
        let ghost q0 = like_to(k, xs, xs.len(), r0);
        proof { let b = r_of(t_like_end(k, q0.tr->Ok_0), Seq::empty()).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
        q.SerializeSeq__end()
    }
}
pub struct FTuple<T> {  pub v: Vec<T> }
impl<T: Serialize> Serialize for FTuple<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { like_done(seq_like_as(s), self.v@, r_seq_like(s, Some(self.v@.len() as usize))) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) {
        let ghost s = e.state.stack@; let ghost w = e.write.written(); let ghost rel = e.write.reliable();
        let ghost r0 = r_seq_like(s, Some(self.v@.len() as usize)); let ghost k = seq_like_as(s); let ghost xs = self.v@;
        let mut q = match e.Serializer__serialize_tuple(self.v.len()) { Ok(q) => q, Err(x) => return Err(x) };
        let ghost qi = q;
        let mut i: usize = 0;
        #[verifier::loop_isolation(false)]
        while i < self.v.len()
            invariant
                0 <= i <= xs.len(), xs == self.v@, q.seq_like == k, r0.tr is Ok,
                like_to(k, xs, i as nat, r0).tr == Tr::Ok(q.encoder.state.stack@), !q.encoder.state.broken, cinv(*q.encoder.state),
                q.encoder.write.written() == w + like_to(k, xs, i as nat, r0).b, q.encoder.write.reliable() == rel,
                *final(qi.encoder) == *final(q.encoder),
                !(*old(e)).state.broken, s == (*old(e)).state.stack@, w == (*old(e)).write.written(), rel == (*old(e)).write.reliable(), self.does(s) == like_all(k, xs, r0),
            decreases xs.len() - i,
        {
            let ghost q0 = like_to(k, xs, i as nat, r0);
            proof { if !(like_to(k, xs, (i + 1) as nat, r0).tr is Ok) { lemma_like_fail(k, xs, (i + 1) as nat, xs.len(), r0); } }
            match q.SerializeTuple__serialize_element(&self.v[i]) { Ok(_) => (), Err(x) => return Err(x) }
            proof { let b = after(r_of(t_like_elem(k, q0.tr->Ok_0), Seq::empty()), &xs[i as int]).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
            i += 1;
        }
        let ghost q0 = like_to(k, xs, xs.len(), r0);
        proof { let b = r_of(t_like_end(k, q0.tr->Ok_0), Seq::empty()).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
        q.SerializeTuple__end()
    }
}
pub struct FTupleStruct<T> { pub name: &'static str, pub v: Vec<T> }
impl<T: Serialize> Serialize for FTupleStruct<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { like_done(seq_like_as(s), self.v@, r_seq_like(s, Some(self.v@.len() as usize))) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) {
        let ghost s = e.state.stack@; let ghost w = e.write.written(); let ghost rel = e.write.reliable();
        let ghost r0 = r_seq_like(s, Some(self.v@.len() as usize)); let ghost k = seq_like_as(s); let ghost xs = self.v@;
        let mut q = match e.Serializer__serialize_tuple_struct(self.name, self.v.len()) { Ok(q) => q, Err(x) => return Err(x) };
        let ghost qi = q;
        let mut i: usize = 0;
        #[verifier::loop_isolation(false)]
        while i < self.v.len()
            invariant
                0 <= i <= xs.len(), xs == self.v@, q.seq_like == k, r0.tr is Ok,
                like_to(k, xs, i as nat, r0).tr == Tr::Ok(q.encoder.state.stack@), !q.encoder.state.broken, cinv(*q.encoder.state),
                q.encoder.write.written() == w + like_to(k, xs, i as nat, r0).b, q.encoder.write.reliable() == rel,
                *final(qi.encoder) == *final(q.encoder),
                !(*old(e)).state.broken, s == (*old(e)).state.stack@, w == (*old(e)).write.written(), rel == (*old(e)).write.reliable(), self.does(s) == like_all(k, xs, r0),
            decreases xs.len() - i,
        {
            let ghost q0 = like_to(k, xs, i as nat, r0);
            proof { if !(like_to(k, xs, (i + 1) as nat, r0).tr is Ok) { lemma_like_fail(k, xs, (i + 1) as nat, xs.len(), r0); } }
            match q.SerializeTupleStruct__serialize_field(&self.v[i]) { Ok(_) => (), Err(x) => return Err(x) }
            proof { let b = after(r_of(t_like_elem(k, q0.tr->Ok_0), Seq::empty()), &xs[i as int]).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
            i += 1;
        }
        let ghost q0 = like_to(k, xs, xs.len(), r0);
        proof { let b = r_of(t_like_end(k, q0.tr->Ok_0), Seq::empty()).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
        q.SerializeTupleStruct__end()
    }
}
pub struct FTupleVariant<T> { pub name: &'static str, pub i: u32, pub variant: &'static str, pub v: Vec<T> }
impl<T: Serialize> Serialize for FTupleVariant<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { like_done(variant_like(s, self.i, self.variant@), self.v@, r_seq_variant(s, self.i, self.variant@, self.v@.len() as usize)) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) {
        let ghost s = e.state.stack@; let ghost w = e.write.written(); let ghost rel = e.write.reliable();
        let ghost r0 = r_seq_variant(s, self.i, self.variant@, self.v@.len() as usize); let ghost k = variant_like(s, self.i, self.variant@); let ghost xs = self.v@;
        let mut q = match e.Serializer__serialize_tuple_variant(self.name, self.i, self.variant, self.v.len()) { Ok(q) => q, Err(x) => return Err(x) };
        let ghost qi = q;
        let mut i: usize = 0;
        #[verifier::loop_isolation(false)]
        while i < self.v.len()
            invariant
                0 <= i <= xs.len(), xs == self.v@, q.seq_like == k, r0.tr is Ok,
                like_to(k, xs, i as nat, r0).tr == Tr::Ok(q.encoder.state.stack@), !q.encoder.state.broken, cinv(*q.encoder.state),
                q.encoder.write.written() == w + like_to(k, xs, i as nat, r0).b, q.encoder.write.reliable() == rel,
                *final(qi.encoder) == *final(q.encoder),
                !(*old(e)).state.broken, s == (*old(e)).state.stack@, w == (*old(e)).write.written(), rel == (*old(e)).write.reliable(), self.does(s) == like_all(k, xs, r0),
            decreases xs.len() - i,
        {
            let ghost q0 = like_to(k, xs, i as nat, r0);
            proof { if !(like_to(k, xs, (i + 1) as nat, r0).tr is Ok) { lemma_like_fail(k, xs, (i + 1) as nat, xs.len(), r0); } }
            match q.SerializeTupleVariant__serialize_field(&self.v[i]) { Ok(_) => (), Err(x) => return Err(x) }
            proof { let b = after(r_of(t_like_elem(k, q0.tr->Ok_0), Seq::empty()), &xs[i as int]).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
            i += 1;
        }
        let ghost q0 = like_to(k, xs, xs.len(), r0);
        proof { let b = r_of(t_like_end(k, q0.tr->Ok_0), Seq::empty()).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
        q.SerializeTupleVariant__end()
    }
}
pub open spec fn variant_like<'a>(s: Seq<StackFrame<'a>>, i: u32, name: Seq<char>) -> SerLike { match r_enum(s, i, name).tr { Tr::Ok(t) => seq_like_as(t), _ => SerLike::Unit } }
/// the value of FORMAT.txt which elements in a sequence of serde stand for: of the schema, it is said whether
/// it is a sequence or a tuple; and no elements are also a unit
pub open spec fn like_value(g: GV, gs: Seq<GV>) -> bool { g == GV::VarSeq(gs) || g == GV::FixedSeq(gs) || g == GV::Tuple(gs) || (g is Unit && gs.len() == 0) }
pub open spec fn all_write<T: Serialize>(xs: Seq<T>, gs: Seq<GV>) -> bool { xs.len() == gs.len() && forall|i: int| 0 <= i < xs.len() ==> writes(&#[trigger] xs[i], gs[i]) }
pub proof fn lemma_like<'a, T: Serialize>(xs: Seq<T>, gs: Seq<GV>, g: GV, s: Seq<StackFrame<'a>>, got: Option<usize>)
    requires like_value(g, gs), all_write(xs, gs), run(g, s).tr is Ok, xs.len() <= usize::MAX,
        got == Some(xs.len() as usize) || got is None && !(g is VarSeq),
    ensures like_done(seq_like_as(s), xs, r_seq_like(s, got)) == run(g, s),
{
    let r0 = r_seq_like(s, got); let k = seq_like_as(s); let e = Seq::<u8>::empty();
    if g is Unit { reveal(run); assert(like_to(k, xs, 0, r0) == r0); assert(e + e =~= e); }
    else {
        lemma_run_begin(g, s);
        let t0 = begun(g, s)->Ok_0;
        assert(begun(g, s) is Ok);
        assert(r0 == (Run { tr: Tr::Ok(t0), b: gpfx(g) }));
        lemma_like_to(xs, gs, g, s, xs.len());
        lemma_run_finish(g, s, t0, e);
        let u = run_to(g, xs.len() as int, t0);
        assert(e + run(g, s).b =~= run(g, s).b);
        assert((e + gpfx(g)) + u.b =~= gpfx(g) + u.b);
        assert(run(g, s).b + e =~= run(g, s).b);
    }
}
pub proof fn lemma_like_to<'a, T: Serialize>(xs: Seq<T>, gs: Seq<GV>, g: GV, s: Seq<StackFrame<'a>>, n: nat)
    requires like_value(g, gs), all_write(xs, gs), run(g, s).tr is Ok, n <= xs.len() <= usize::MAX, !(g is Unit), begun(g, s) is Ok,
    ensures run_to(g, n as int, begun(g, s)->Ok_0).tr is Ok,
        like_to(seq_like_as(s), xs, n, Run { tr: begun(g, s), b: gpfx(g) }) == pre(gpfx(g), run_to(g, n as int, begun(g, s)->Ok_0)),
    decreases n,
{
    let k = seq_like_as(s); let t0 = begun(g, s)->Ok_0; let r0 = Run { tr: begun(g, s), b: gpfx(g) }; let e = Seq::<u8>::empty();
    lemma_run_begin(g, s);
    if n == 0 { assert(gpfx(g) + e =~= gpfx(g)); }
    else {
        lemma_like_to(xs, gs, g, s, (n - 1) as nat);
        lemma_run_to(g, n - 1, s, t0, e);
        let p = run_to(g, n - 1, t0);
        let t = p.tr->Ok_0;
        assert(run_to(g, n as int, t0) == step_to(g, n - 1, p));
        assert(run_to(g, n as int, t0).tr is Ok);
        assert(t_like_elem(k, t) == t_elem(gkind(g), gnames(g)[n - 1], t));
        let u = t_like_elem(k, t)->Ok_0;
        assert(writes(&xs[n - 1], gs[n - 1]));
        assert(xs[n - 1].does(u) == run(gs[n - 1], u));
        let b = run(gs[n - 1], u).b;
        assert((gpfx(g) + p.b) + (e + b) =~= gpfx(g) + (p.b + b));
    }
}
pub proof fn lemma_writes_seq<T: Serialize>(x: FSeq<T>, gs: Seq<GV>, g: GV)
    requires all_write(x.v@, gs), like_value(g, gs), x.known || !(g is VarSeq), x.v@.len() <= usize::MAX,
    ensures writes(&x, g),
{ assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies x.does(s) == run(g, s) by { lemma_like(x.v@, gs, g, s, if x.known { Some(x.v@.len() as usize) } else { None }); } }
pub proof fn lemma_writes_tuple<T: Serialize>(x: FTuple<T>, gs: Seq<GV>, g: GV)
    requires all_write(x.v@, gs), like_value(g, gs), x.v@.len() <= usize::MAX,
    ensures writes(&x, g),
{ assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies x.does(s) == run(g, s) by { lemma_like(x.v@, gs, g, s, Some(x.v@.len() as usize)); } }
pub proof fn lemma_writes_tuple_struct<T: Serialize>(x: FTupleStruct<T>, gs: Seq<GV>, g: GV)
    requires all_write(x.v@, gs), like_value(g, gs), x.v@.len() <= usize::MAX,
    ensures writes(&x, g),
{ assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies x.does(s) == run(g, s) by { lemma_like(x.v@, gs, g, s, Some(x.v@.len() as usize)); } }
pub proof fn lemma_like_pre<'a, T: Serialize>(k: SerLike, xs: Seq<T>, n: nat, b: Seq<u8>, r: Run<'a>)
    requires n <= xs.len(), like_to(k, xs, n, r).tr is Ok,
    ensures like_to(k, xs, n, pre(b, r)) == pre(b, like_to(k, xs, n, r)),
    decreases n,
{
    if n > 0 {
        if !(like_to(k, xs, (n - 1) as nat, r).tr is Ok) { lemma_like_fail(k, xs, (n - 1) as nat, n, r); }
        lemma_like_pre(k, xs, (n - 1) as nat, b, r);
        let q = like_to(k, xs, (n - 1) as nat, r);
        let c = after(r_of(t_like_elem(k, q.tr->Ok_0), Seq::empty()), &xs[n - 1]).b;
        assert((b + q.b) + c =~= b + (q.b + c));
    }
}
pub proof fn lemma_writes_tuple_variant<T: Serialize>(x: FTupleVariant<T>, gs: Seq<GV>, g: GV)
    requires all_write(x.v@, gs), like_value(g, gs), x.v@.len() <= usize::MAX,
    ensures writes(&x, GV::Enum(x.i as nat, x.variant@, Box::new(g))),
{
    let h = GV::Enum(x.i as nat, x.variant@, Box::new(g));
    assert forall|s: Seq<StackFrame>| #![trigger run(h, s)] run(h, s).tr is Ok implies x.does(s) == run(h, s) by {
        reveal(run);
        let o = r_enum(s, x.i, x.variant@);
        let t = o.tr->Ok_0;
        let len = Some(x.v@.len() as usize);
        let r0 = r_seq_like(t, len); let k = seq_like_as(t);
        assert(run(g, t).tr is Ok);
        lemma_like(x.v@, gs, g, t, len);
        assert(r0.tr is Ok);
        let n = x.v@.len();
        assert(like_to(k, x.v@, n, r0).tr is Ok);
        lemma_like_pre(k, x.v@, n, o.b, r0);
        let q = like_to(k, x.v@, n, r0);
        let c = r_of(t_like_end(k, q.tr->Ok_0), Seq::empty()).b;
        assert((o.b + q.b) + c =~= o.b + (q.b + c));
    }
}

// ---- structs and struct variants: fields written, or skipped (None)
pub open spec fn r_fieldf<'a, T: Serialize>(s: Seq<StackFrame<'a>>, f: (&'static str, Option<T>)) -> Run<'a> {
    match f.1 { Some(x) => after(r_of(t_field(s, f.0@), Seq::empty()), &x), None => r_skip(s, f.0@) }
}
pub open spec fn fields_to<'a, T: Serialize>(xs: Seq<(&'static str, Option<T>)>, n: nat, r: Run<'a>) -> Run<'a>
    decreases n,
{
    if n == 0 || n > xs.len() { r }
    else { let q = fields_to(xs, (n - 1) as nat, r); match q.tr { Tr::Ok(t) => pre(q.b, r_fieldf(t, xs[n - 1])), _ => q } }
}
pub proof fn lemma_fields_fail<'a, T: Serialize>(xs: Seq<(&'static str, Option<T>)>, n: nat, m: nat, r: Run<'a>)
    requires n <= m <= xs.len(), !(fields_to(xs, n, r).tr is Ok),
    ensures fields_to(xs, m, r) == fields_to(xs, n, r),
    decreases m,
{ if n < m { lemma_fields_fail(xs, n, (m - 1) as nat, r); } }
pub open spec fn fields_all<'a, T: Serialize>(xs: Seq<(&'static str, Option<T>)>, r: Run<'a>) -> Run<'a> {
    let q = fields_to(xs, xs.len(), r);
    match q.tr { Tr::Ok(t) => pre(q.b, r_of(t_finish_struct(t), Seq::empty())), _ => q }
}
pub open spec fn fields_done<'a, T: Serialize>(xs: Seq<(&'static str, Option<T>)>, r: Run<'a>) -> Run<'a> { match r.tr { Tr::Ok(t) => fields_all(xs, r), _ => r } }

pub struct FStruct<T> { pub name: &'static str, pub v: Vec<(&'static str, Option<T>)> }
impl<T: Serialize> Serialize for FStruct<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { fields_done(self.v@, r_of(t_begin_struct(s), Seq::empty())) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) {
        let ghost s = e.state.stack@; let ghost w = e.write.written(); let ghost rel = e.write.reliable();
        let ghost r0 = r_of(t_begin_struct(s), Seq::empty()); let ghost xs = self.v@;
        let mut q = match e.Serializer__serialize_struct(self.name, self.v.len()) { Ok(q) => q, Err(x) => return Err(x) };
        let ghost qi = q;
        let mut i: usize = 0;
        #[verifier::loop_isolation(false)]
        while i < self.v.len()
            invariant
                0 <= i <= xs.len(), xs == self.v@, r0.tr is Ok,
                fields_to(xs, i as nat, r0).tr == Tr::Ok(q.state.stack@), !q.state.broken, cinv(*q.state),
                q.write.written() == w + fields_to(xs, i as nat, r0).b, q.write.reliable() == rel,
                *final(qi) == *final(q),
                !(*old(e)).state.broken, s == (*old(e)).state.stack@, w == (*old(e)).write.written(), rel == (*old(e)).write.reliable(), self.does(s) == fields_all(xs, r0),
            decreases xs.len() - i,
        {
            let ghost q0 = fields_to(xs, i as nat, r0);
            proof { if !(fields_to(xs, (i + 1) as nat, r0).tr is Ok) { lemma_fields_fail(xs, (i + 1) as nat, xs.len(), r0); } }
            let f = &self.v[i];
            match &f.1 {
                Some(x) => match q.SerializeStruct__serialize_field(f.0, x) { Ok(_) => (), Err(x) => return Err(x) },
                None => match q.SerializeStruct__skip_field(f.0) { Ok(_) => (), Err(x) => return Err(x) },
            }
            proof { let b = r_fieldf(q0.tr->Ok_0, xs[i as int]).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
            i += 1;
        }
        let ghost q0 = fields_to(xs, xs.len(), r0);
        proof { let b = r_of(t_finish_struct(q0.tr->Ok_0), Seq::empty()).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
        q.SerializeStruct__end()
    }
}
pub struct FStructVariant<T> { pub name: &'static str, pub i: u32, pub variant: &'static str, pub v: Vec<(&'static str, Option<T>)> }
impl<T: Serialize> Serialize for FStructVariant<T> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { fields_done(self.v@, r_struct_variant(s, self.i, self.variant@)) }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) {
        let ghost s = e.state.stack@; let ghost w = e.write.written(); let ghost rel = e.write.reliable();
        let ghost r0 = r_struct_variant(s, self.i, self.variant@); let ghost xs = self.v@;
        let mut q = match e.Serializer__serialize_struct_variant(self.name, self.i, self.variant, self.v.len()) { Ok(q) => q, Err(x) => return Err(x) };
        let ghost qi = q;
        let mut i: usize = 0;
        #[verifier::loop_isolation(false)]
        while i < self.v.len()
            invariant
                0 <= i <= xs.len(), xs == self.v@, r0.tr is Ok,
                fields_to(xs, i as nat, r0).tr == Tr::Ok(q.state.stack@), !q.state.broken, cinv(*q.state),
                q.write.written() == w + fields_to(xs, i as nat, r0).b, q.write.reliable() == rel,
                *final(qi) == *final(q),
                !(*old(e)).state.broken, s == (*old(e)).state.stack@, w == (*old(e)).write.written(), rel == (*old(e)).write.reliable(), self.does(s) == fields_all(xs, r0),
            decreases xs.len() - i,
        {
            let ghost q0 = fields_to(xs, i as nat, r0);
            proof { if !(fields_to(xs, (i + 1) as nat, r0).tr is Ok) { lemma_fields_fail(xs, (i + 1) as nat, xs.len(), r0); } }
            let f = &self.v[i];
            match &f.1 {
                Some(x) => match q.SerializeStructVariant__serialize_field(f.0, x) { Ok(_) => (), Err(x) => return Err(x) },
                None => match q.SerializeStructVariant__skip_field(f.0) { Ok(_) => (), Err(x) => return Err(x) },
            }
            proof { let b = r_fieldf(q0.tr->Ok_0, xs[i as int]).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
            i += 1;
        }
        let ghost q0 = fields_to(xs, xs.len(), r0);
        proof { let b = r_of(t_finish_struct(q0.tr->Ok_0), Seq::empty()).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
        q.SerializeStructVariant__end()
    }
}
/// the value of FORMAT.txt which these fields stand for; one that is skipped is a none
pub open spec fn fields_write<T: Serialize>(xs: Seq<(&'static str, Option<T>)>, gs: Seq<GV>) -> bool {
    xs.len() == gs.len() && forall|i: int| 0 <= i < xs.len() ==> match (#[trigger] xs[i]).1 { Some(x) => writes(&x, gs[i]), None => gs[i] is None }
}
pub open spec fn field_names<T>(xs: Seq<(&'static str, Option<T>)>) -> Seq<Seq<char>> { Seq::new(xs.len(), |i: int| xs[i].0@) }
pub proof fn lemma_fields_to<'a, T: Serialize>(xs: Seq<(&'static str, Option<T>)>, gs: Seq<GV>, s: Seq<StackFrame<'a>>, n: nat)
    requires fields_write(xs, gs), n <= xs.len(), ({ let g = GV::Struct(field_names(xs), gs); run(g, s).tr is Ok && begun(g, s) is Ok }),
    ensures ({ let g = GV::Struct(field_names(xs), gs); let t0 = begun(g, s)->Ok_0; run_to(g, n as int, t0).tr is Ok
        && fields_to(xs, n, Run { tr: begun(g, s), b: Seq::empty() }) == run_to(g, n as int, t0) }),
    decreases n,
{
    let g = GV::Struct(field_names(xs), gs);
    let t0 = begun(g, s)->Ok_0; let e = Seq::<u8>::empty();
    lemma_run_begin(g, s);
    if n > 0 {
        lemma_fields_to(xs, gs, s, (n - 1) as nat);
        lemma_run_to(g, n - 1, s, t0, e);
        let p = run_to(g, n - 1, t0);
        let t = p.tr->Ok_0;
        assert(run_to(g, n as int, t0) == step_to(g, n - 1, p));
        assert(run_to(g, n as int, t0).tr is Ok);
        assert(gnames(g)[n - 1] == xs[n - 1].0@);
        let u = t_field(t, xs[n - 1].0@)->Ok_0;
        let f = xs[n - 1];
        match f.1 {
            Some(x) => { assert(writes(&x, gs[n - 1])); assert(x.does(u) == run(gs[n - 1], u)); }
            None => { reveal(run); }
        }
        let b = run(gs[n - 1], u).b;
        assert(e + b =~= b);
    }
}
pub proof fn lemma_fields<'a, T: Serialize>(xs: Seq<(&'static str, Option<T>)>, gs: Seq<GV>, s: Seq<StackFrame<'a>>)
    requires fields_write(xs, gs), run(GV::Struct(field_names(xs), gs), s).tr is Ok,
    ensures fields_done(xs, r_of(t_begin_struct(s), Seq::empty())) == run(GV::Struct(field_names(xs), gs), s),
        fields_to(xs, xs.len(), r_of(t_begin_struct(s), Seq::empty())).tr is Ok, t_begin_struct(s) is Ok,
{
    let g = GV::Struct(field_names(xs), gs); let e = Seq::<u8>::empty();
    lemma_run_begin(g, s);
    let t0 = begun(g, s)->Ok_0;
    lemma_fields_to(xs, gs, s, xs.len());
    lemma_run_finish(g, s, t0, e);
    let u = run_to(g, xs.len() as int, t0);
    assert(e + run(g, s).b =~= run(g, s).b);
    assert((e + gpfx(g)) + u.b =~= u.b);
    assert(u.b + e =~= u.b);
}
pub proof fn lemma_writes_struct<T: Serialize>(x: FStruct<T>, gs: Seq<GV>)
    requires fields_write(x.v@, gs),
    ensures writes(&x, GV::Struct(field_names(x.v@), gs)),
{ let g = GV::Struct(field_names(x.v@), gs); assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies x.does(s) == run(g, s) by { lemma_fields(x.v@, gs, s); } }
pub proof fn lemma_fields_pre<'a, T: Serialize>(xs: Seq<(&'static str, Option<T>)>, n: nat, b: Seq<u8>, r: Run<'a>)
    requires n <= xs.len(), fields_to(xs, n, r).tr is Ok,
    ensures fields_to(xs, n, pre(b, r)) == pre(b, fields_to(xs, n, r)),
    decreases n,
{
    if n > 0 {
        if !(fields_to(xs, (n - 1) as nat, r).tr is Ok) { lemma_fields_fail(xs, (n - 1) as nat, n, r); }
        lemma_fields_pre(xs, (n - 1) as nat, b, r);
        let q = fields_to(xs, (n - 1) as nat, r);
        let c = r_fieldf(q.tr->Ok_0, xs[n - 1]).b;
        assert((b + q.b) + c =~= b + (q.b + c));
    }
}
pub proof fn lemma_writes_struct_variant<T: Serialize>(x: FStructVariant<T>, gs: Seq<GV>)
    requires fields_write(x.v@, gs),
    ensures writes(&x, GV::Enum(x.i as nat, x.variant@, Box::new(GV::Struct(field_names(x.v@), gs)))),
{
    let g = GV::Struct(field_names(x.v@), gs);
    let h = GV::Enum(x.i as nat, x.variant@, Box::new(g));
    assert forall|s: Seq<StackFrame>| #![trigger run(h, s)] run(h, s).tr is Ok implies x.does(s) == run(h, s) by {
        reveal(run);
        let o = r_enum(s, x.i, x.variant@);
        let t = o.tr->Ok_0;
        assert(run(g, t).tr is Ok);
        lemma_fields(x.v@, gs, t);
        let r0 = r_of(t_begin_struct(t), Seq::empty());
        let n = x.v@.len();
        lemma_fields_pre(x.v@, n, o.b, r0);
        let q = fields_to(x.v@, n, r0);
        let c = r_of(t_finish_struct(q.tr->Ok_0), Seq::empty()).b;
        assert((o.b + q.b) + c =~= o.b + (q.b + c));
    }
}

// ---- maps
pub open spec fn r_entry<'a, K: Serialize, V: Serialize>(s: Seq<StackFrame<'a>>, x: (K, V)) -> Run<'a> {
    r_then(after(r_of(t_key(s), Seq::empty()), &x.0), |u: Seq<StackFrame<'a>>| r_ended(after(r_of(t_tuple_elem(u), Seq::empty()), &x.1), Kind::Tuple))
}
pub open spec fn map_to<'a, K: Serialize, V: Serialize>(xs: Seq<(K, V)>, n: nat, r: Run<'a>) -> Run<'a>
    decreases n,
{
    if n == 0 || n > xs.len() { r }
    else { let q = map_to(xs, (n - 1) as nat, r); match q.tr { Tr::Ok(t) => pre(q.b, r_entry(t, xs[n - 1])), _ => q } }
}
pub proof fn lemma_map_fail<'a, K: Serialize, V: Serialize>(xs: Seq<(K, V)>, n: nat, m: nat, r: Run<'a>)
    requires n <= m <= xs.len(), !(map_to(xs, n, r).tr is Ok),
    ensures map_to(xs, m, r) == map_to(xs, n, r),
    decreases m,
{ if n < m { lemma_map_fail(xs, n, (m - 1) as nat, r); } }
pub open spec fn map_all<'a, K: Serialize, V: Serialize>(xs: Seq<(K, V)>, r: Run<'a>) -> Run<'a> {
    let q = map_to(xs, xs.len(), r);
    match q.tr { Tr::Ok(t) => pre(q.b, r_of(t_finish_seq(t), Seq::empty())), _ => q }
}
impl<K: Serialize, V: Serialize> Serialize for FMap<K, V> {
    open spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a> { let r = r_map(s, Some(self.v@.len() as usize)); match r.tr { Tr::Ok(_) => map_all(self.v@, r), _ => r } }
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>) {
        let ghost s = e.state.stack@; let ghost w = e.write.written(); let ghost rel = e.write.reliable();
        let ghost r0 = r_map(s, Some(self.v@.len() as usize)); let ghost xs = self.v@;
        let mut q = match e.Serializer__serialize_map(Some(self.v.len())) { Ok(q) => q, Err(x) => return Err(x) };
        let ghost qi = q;
        let mut i: usize = 0;
        #[verifier::loop_isolation(false)]
        while i < self.v.len()
            invariant
                0 <= i <= xs.len(), xs == self.v@, r0.tr is Ok,
                map_to(xs, i as nat, r0).tr == Tr::Ok(q.state.stack@), !q.state.broken, cinv(*q.state),
                q.write.written() == w + map_to(xs, i as nat, r0).b, q.write.reliable() == rel,
                *final(qi) == *final(q),
                !(*old(e)).state.broken, s == (*old(e)).state.stack@, w == (*old(e)).write.written(), rel == (*old(e)).write.reliable(), self.does(s) == map_all(xs, r0),
            decreases xs.len() - i,
        {
            let ghost q0 = map_to(xs, i as nat, r0);
            let ghost x = xs[i as int]; let ghost t = q.state.stack@;
            let ghost kk = after(r_of(t_key(t), Seq::empty()), &x.0);
            proof { if !(map_to(xs, (i + 1) as nat, r0).tr is Ok) { lemma_map_fail(xs, (i + 1) as nat, xs.len(), r0); } }
            let f = &self.v[i];
            match q.SerializeMap__serialize_key(&f.0) { Ok(_) => (), Err(x) => return Err(x) }
            let ghost u = q.state.stack@;
            let ghost vv = r_ended(after(r_of(t_tuple_elem(u), Seq::empty()), &x.1), Kind::Tuple);
            match q.SerializeMap__serialize_value(&f.1) { Ok(_) => (), Err(x) => return Err(x) }
            proof { assert((w + q0.b + kk.b) + vv.b =~= w + (q0.b + (kk.b + vv.b))); }
            i += 1;
        }
        let ghost q0 = map_to(xs, xs.len(), r0);
        proof { let b = r_of(t_finish_seq(q0.tr->Ok_0), Seq::empty()).b; assert(w + (q0.b + b) =~= (w + q0.b) + b); }
        q.SerializeMap__end()
    }
}
pub open spec fn pair(k: GV, v: GV) -> GV { GV::Tuple(seq![k, v]) }
pub open spec fn map_write<K: Serialize, V: Serialize>(xs: Seq<(K, V)>, ks: Seq<GV>, vs: Seq<GV>) -> bool {
    xs.len() == ks.len() == vs.len() && forall|i: int| 0 <= i < xs.len() ==> writes(&(#[trigger] xs[i]).0, ks[i]) && writes(&xs[i].1, vs[i])
}
pub open spec fn pairs(ks: Seq<GV>, vs: Seq<GV>) -> Seq<GV> { Seq::new(ks.len(), |i: int| pair(ks[i], vs[i])) }
/// one entry, after its element was begun
pub proof fn lemma_entry<'a, K: Serialize, V: Serialize>(x: (K, V), k: GV, v: GV, t: Seq<StackFrame<'a>>)
    requires writes(&x.0, k), writes(&x.1, v), t_seq_elem(t) matches Tr::Ok(u) && run(pair(k, v), u).tr is Ok,
    ensures r_entry(t, x) == run(pair(k, v), t_seq_elem(t)->Ok_0),
{
    let g = pair(k, v); let u = t_seq_elem(t)->Ok_0; let e = Seq::<u8>::empty();
    lemma_run_begin(g, u);
    let t0 = begun(g, u)->Ok_0;
    lemma_run_to(g, 0, u, t0, e);
    lemma_run_to(g, 1, u, t0, e);
    lemma_run_finish(g, u, t0, e);
    let a = t_tuple_elem(t0)->Ok_0;
    assert(gelems(g)[0] == k && gelems(g)[1] == v);
    assert(run_to(g, 1, t0).tr is Ok); assert(run_to(g, 2, t0).tr is Ok);
    assert(t_key(t) == Tr::Ok(a));
    assert(x.0.does(a) == run(k, a));
    let c = run(k, a).tr->Ok_0;
    assert(e + run(k, a).b =~= run(k, a).b);
    let d = t_tuple_elem(c)->Ok_0;
    assert(x.1.does(d) == run(v, d));
    assert(e + run(v, d).b =~= run(v, d).b);
    assert(e + run(g, u).b =~= run(g, u).b);
    assert((e + gpfx(g)) + run_to(g, 2, t0).b =~= run_to(g, 2, t0).b);
}
pub proof fn lemma_map_to<'a, K: Serialize, V: Serialize>(xs: Seq<(K, V)>, ks: Seq<GV>, vs: Seq<GV>, s: Seq<StackFrame<'a>>, n: nat)
    requires map_write(xs, ks, vs), n <= xs.len(), ({ let g = GV::VarSeq(pairs(ks, vs)); run(g, s).tr is Ok && begun(g, s) is Ok }),
    ensures ({ let g = GV::VarSeq(pairs(ks, vs)); let t0 = begun(g, s)->Ok_0; run_to(g, n as int, t0).tr is Ok
        && map_to(xs, n, Run { tr: begun(g, s), b: gpfx(g) }) == pre(gpfx(g), run_to(g, n as int, t0)) }),
    decreases n,
{
    let g = GV::VarSeq(pairs(ks, vs)); let t0 = begun(g, s)->Ok_0; let e = Seq::<u8>::empty();
    lemma_run_begin(g, s);
    if n == 0 { assert(gpfx(g) + e =~= gpfx(g)); }
    else {
        lemma_map_to(xs, ks, vs, s, (n - 1) as nat);
        lemma_run_to(g, n - 1, s, t0, e);
        let p = run_to(g, n - 1, t0);
        let t = p.tr->Ok_0;
        assert(run_to(g, n as int, t0) == step_to(g, n - 1, p));
        assert(run_to(g, n as int, t0).tr is Ok);
        assert(gelems(g)[n - 1] == pair(ks[n - 1], vs[n - 1]));
        lemma_entry(xs[n - 1], ks[n - 1], vs[n - 1], t);
        let b = r_entry(t, xs[n - 1]).b;
        assert((gpfx(g) + p.b) + b =~= gpfx(g) + (p.b + b));
    }
}
pub proof fn lemma_writes_map<K: Serialize, V: Serialize>(x: FMap<K, V>, ks: Seq<GV>, vs: Seq<GV>)
    requires map_write(x.v@, ks, vs), x.v@.len() <= usize::MAX,
    ensures writes(&x, GV::VarSeq(pairs(ks, vs))),
{
    let g = GV::VarSeq(pairs(ks, vs)); let xs = x.v@; let e = Seq::<u8>::empty();
    assert forall|s: Seq<StackFrame>| #![trigger run(g, s)] run(g, s).tr is Ok implies x.does(s) == run(g, s) by {
        lemma_run_begin(g, s);
        let t0 = begun(g, s)->Ok_0;
        assert(r_map(s, Some(xs.len() as usize)) == (Run { tr: Tr::Ok(t0), b: gpfx(g) }));
        lemma_map_to(xs, ks, vs, s, xs.len());
        lemma_run_finish(g, s, t0, e);
        let u = run_to(g, xs.len() as int, t0);
        assert(e + run(g, s).b =~= run(g, s).b);
        assert((e + gpfx(g)) + u.b =~= gpfx(g) + u.b);
        assert(run(g, s).b + e =~= run(g, s).b);
    }
}

// ---- the property: serializing a value with a new coder
//@ C12
pub fn client_serialize<'a, T: Serialize, W: io::Write>(x: &T, e: &mut Encoder<'a, 'a, W>, Ghost(sch): Ghost<Schema>, Ghost(g): Ghost<GV>) -> (r: core::result::Result<bool, crate::error::Error>)
    requires !old(e).state.broken, fresh(old(e).state.stack@, sch), writes(x, g), conf(g, seq![sch]), depth(g) <= isize::MAX, old(e).write.reliable(),
    ensures r == core::result::Result::<bool, crate::error::Error>::Ok(true), (*final(e)).write.written() == (*old(e)).write.written() + enc(g, seq![sch]),
{
    proof { theorem_fresh(g, e.state.stack@, sch); assert(x.does(e.state.stack@) == run(g, e.state.stack@)); }
    match x.serialize(e) {
        Ok(_) => Ok(e.coder_state().is_finished()),
        Err(x) => Err(x),
    }
}

