//@file C12
// ======== deserializing with serde: what is handed over, and when
use crate::serde::de::{SeqLike as DeLike, SeqDecoder, MapDecoder, StructDecoder, EnumDecoder, AsName};
use crate::Decoder;

/// a decoder as its user can observe it
pub ghost struct Ds<'s> { pub stack: Seq<StackFrame<'s>>, pub broken: bool, pub rest: Seq<u8> }
pub open spec fn ds<'a, 'b, R: io::Read>(d: Decoder<'a, 'b, R>) -> Ds<'a> { Ds { stack: d.state.stack@, broken: d.state.broken, rest: d.read.rest() } }
pub open spec fn ds_ok<'s>(t: Seq<StackFrame<'s>>, rest: Seq<u8>) -> Ds<'s> { Ds { stack: t, broken: false, rest } }
/// What is handed to a visitor or a seed: a value, or a decoder (with what remains
/// to be read by it) as it is when handed over and as it is when given back.
pub ghost enum How<'s> {
    Bool(bool), Int(ScalarType, int), Bits(ScalarType, nat), Char(nat), Str(Seq<u8>), Bytes(Seq<u8>), None, Unit,
    Some(Ds<'s>, Ds<'s>), Newtype(Ds<'s>, Ds<'s>), Dec(Ds<'s>, Ds<'s>), Name(Seq<char>), Index(usize),
    Seq(DeLike, usize, Ds<'s>, Ds<'s>), Map(usize, Ds<'s>, Ds<'s>), Fields(Seq<Seq<char>>, Ds<'s>, Ds<'s>), Variant(usize, Ds<'s>, Ds<'s>),
}
pub open spec fn as_some<'s>(h: How<'s>) -> How<'s> { match h { How::Dec(a, b) => How::Some(a, b), _ => h } }
pub open spec fn as_newtype<'s>(h: How<'s>) -> How<'s> { match h { How::Dec(a, b) => How::Newtype(a, b), _ => h } }
pub open spec fn names<N: AsName>(s: Seq<N>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].nm()) }

// ---- serde's traits, as far as the crate calls or implements them. What a type
// of the user makes of what it is handed (`visits`, `takes`) is any relation; that it
// leaves the coder in a state which calls can produce is the contract it has to keep.
/// what can be handed to a visitor or seed
pub trait Deserializer<'s>: Sized {
    spec fn sound(self) -> bool;
    #[verifier::prophetic]
    spec fn how(self) -> How<'s>;
    #[verifier::prophetic]
    spec fn kept(self) -> bool;
}
pub trait SeqAccess<'s>: Sized {
    spec fn sound(self) -> bool;
    #[verifier::prophetic]
    spec fn how(self) -> How<'s>;
    #[verifier::prophetic]
    spec fn kept(self) -> bool;
}
pub trait MapAccess<'s>: Sized {
    spec fn sound(self) -> bool;
    #[verifier::prophetic]
    spec fn how(self) -> How<'s>;
    #[verifier::prophetic]
    spec fn kept(self) -> bool;
}
pub trait EnumAccess<'s>: Sized {
    spec fn sound(self) -> bool;
    #[verifier::prophetic]
    spec fn how(self) -> How<'s>;
    #[verifier::prophetic]
    spec fn kept(self) -> bool;
}
pub trait Visitor<'de>: Sized {
    type Value;
    spec fn visits<'s>(&self, h: How<'s>, r: core::result::Result<Self::Value, crate::error::Error>) -> bool;
    fn visit_bool(self, x: bool) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Bool(x), r);
    fn visit_u8(self, x: u8) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Bits(ScalarType::U8, x.bits()), r);
    fn visit_u16(self, x: u16) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Bits(ScalarType::U16, x.bits()), r);
    fn visit_u32(self, x: u32) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Int(ScalarType::U32, x as int), r);
    fn visit_u64(self, x: u64) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Int(ScalarType::U64, x as int), r);
    fn visit_u128(self, x: u128) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Int(ScalarType::U128, x as int), r);
    fn visit_i8(self, x: i8) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Bits(ScalarType::I8, x.bits()), r);
    fn visit_i16(self, x: i16) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Bits(ScalarType::I16, x.bits()), r);
    fn visit_i32(self, x: i32) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Int(ScalarType::I32, x as int), r);
    fn visit_i64(self, x: i64) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Int(ScalarType::I64, x as int), r);
    fn visit_i128(self, x: i128) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Int(ScalarType::I128, x as int), r);
    fn visit_f32(self, x: f32) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Bits(ScalarType::F32, x.bits()), r);
    fn visit_f64(self, x: f64) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Bits(ScalarType::F64, x.bits()), r);
    fn visit_char(self, x: char) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Char(x as nat), r);
    fn visit_str(self, x: &str) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Str(encode_utf8(x@)), r);
    fn visit_string(self, x: String) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Str(encode_utf8(x@)), r);
    fn visit_bytes(self, x: &[u8]) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Bytes(x@), r);
    fn visit_byte_buf(self, x: Vec<u8>) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Bytes(x@), r);
    fn visit_none(self) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::None, r);
    fn visit_unit(self) -> (r: core::result::Result<Self::Value, crate::error::Error>) ensures self.visits(How::Unit, r);
    fn visit_some<'s, D: Deserializer<'s>>(self, d: D) -> (r: core::result::Result<Self::Value, crate::error::Error>)
        requires d.sound() ensures self.visits(as_some(d.how()), r), d.kept();
    fn visit_newtype_struct<'s, D: Deserializer<'s>>(self, d: D) -> (r: core::result::Result<Self::Value, crate::error::Error>)
        requires d.sound() ensures self.visits(as_newtype(d.how()), r), d.kept();
    fn visit_seq<'s, A: SeqAccess<'s>>(self, a: A) -> (r: core::result::Result<Self::Value, crate::error::Error>)
        requires a.sound() ensures self.visits(a.how(), r), a.kept();
    fn visit_map<'s, A: MapAccess<'s>>(self, a: A) -> (r: core::result::Result<Self::Value, crate::error::Error>)
        requires a.sound() ensures self.visits(a.how(), r), a.kept();
    fn visit_enum<'s, A: EnumAccess<'s>>(self, a: A) -> (r: core::result::Result<Self::Value, crate::error::Error>)
        requires a.sound() ensures self.visits(a.how(), r), a.kept();
}
pub trait DeserializeSeed<'de>: Sized {
    type Value;
    spec fn takes<'s>(&self, h: How<'s>, r: core::result::Result<Self::Value, crate::error::Error>) -> bool;
    fn deserialize<'s, D: Deserializer<'s>>(self, d: D) -> (r: core::result::Result<Self::Value, crate::error::Error>)
        requires d.sound() ensures self.takes(d.how(), r), d.kept();
}
// serde's deserializers of one string and of one number
#[verifier::external_body]
#[verifier::accept_recursive_types(E)]
pub struct StrDeserializer<'n, E> { s: &'n str, e: core::marker::PhantomData<E> }
impl<'n, E> StrDeserializer<'n, E> {
    pub uninterp spec fn name(self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(s: &'n str) -> (r: Self) ensures r.name() == s@ { StrDeserializer { s, e: core::marker::PhantomData } }
}
impl<'s, 'n, E> Deserializer<'s> for StrDeserializer<'n, E> {
    open spec fn sound(self) -> bool { true }
    #[verifier::prophetic]
    open spec fn how(self) -> How<'s> { How::Name(self.name()) }
    #[verifier::prophetic]
    open spec fn kept(self) -> bool { true }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(E)]
pub struct UsizeDeserializer<E> { s: usize, e: core::marker::PhantomData<E> }
impl<E> UsizeDeserializer<E> {
    pub uninterp spec fn index(self) -> usize;
    #[verifier::external_body]
    pub fn new(s: usize) -> (r: Self) ensures r.index() == s { UsizeDeserializer { s, e: core::marker::PhantomData } }
}
impl<'s, E> Deserializer<'s> for UsizeDeserializer<E> {
    open spec fn sound(self) -> bool { true }
    #[verifier::prophetic]
    open spec fn how(self) -> How<'s> { How::Index(self.index()) }
    #[verifier::prophetic]
    open spec fn kept(self) -> bool { true }
}
// what the crate hands over
impl<'a, 'b, 'c, R: io::Read> Deserializer<'a> for &'c mut Decoder<'a, 'b, R> {
    open spec fn sound(self) -> bool { cinv(*self.state) }
    #[verifier::prophetic]
    open spec fn how(self) -> How<'a> { How::Dec(ds(*self), ds(*final(self))) }
    #[verifier::prophetic]
    open spec fn kept(self) -> bool { cinv(*final(self).state) && final(self).read.reliable() == self.read.reliable() }
}
impl<'a, 'b, 'c, R: io::Read> SeqAccess<'a> for SeqDecoder<'a, 'b, 'c, R> {
    open spec fn sound(self) -> bool { cinv(*self.decoder.state) }
    #[verifier::prophetic]
    open spec fn how(self) -> How<'a> { How::Seq(self.seq_like, self.remaining, ds(*self.decoder), ds(*final(self.decoder))) }
    #[verifier::prophetic]
    open spec fn kept(self) -> bool { cinv(*final(self.decoder).state) && final(self.decoder).read.reliable() == self.decoder.read.reliable() }
}
impl<'a, 'b, 'c, R: io::Read> MapAccess<'a> for MapDecoder<'a, 'b, 'c, R> {
    open spec fn sound(self) -> bool { cinv(*self.decoder.state) }
    #[verifier::prophetic]
    open spec fn how(self) -> How<'a> { How::Map(self.remaining, ds(*self.decoder), ds(*final(self.decoder))) }
    #[verifier::prophetic]
    open spec fn kept(self) -> bool { cinv(*final(self.decoder).state) && final(self.decoder).read.reliable() == self.decoder.read.reliable() }
}
impl<'a, 'b, 'c, 'n, R: io::Read, N: AsName> MapAccess<'a> for StructDecoder<'a, 'b, 'c, 'n, R, N> {
    open spec fn sound(self) -> bool { cinv(*self.decoder.state) }
    #[verifier::prophetic]
    open spec fn how(self) -> How<'a> { How::Fields(names(self.remaining@), ds(*self.decoder), ds(*final(self.decoder))) }
    #[verifier::prophetic]
    open spec fn kept(self) -> bool { cinv(*final(self.decoder).state) && final(self.decoder).read.reliable() == self.decoder.read.reliable() }
}
impl<'a, 'b, 'c, R: io::Read> EnumAccess<'a> for EnumDecoder<'a, 'b, 'c, R> {
    open spec fn sound(self) -> bool { cinv(*self.decoder.state) }
    #[verifier::prophetic]
    open spec fn how(self) -> How<'a> { How::Variant(self.ord, ds(*self.decoder), ds(*final(self.decoder))) }
    #[verifier::prophetic]
    open spec fn kept(self) -> bool { cinv(*final(self.decoder).state) && final(self.decoder).read.reliable() == self.decoder.read.reliable() }
}
/// slices of names
pub trait NameSlice<N> {
    spec fn ns(&self) -> Seq<N>;
    fn slice_from(&self, n: usize) -> (r: &[N])
        requires n <= self.ns().len(),
        ensures r@ == self.ns().skip(n as int);
}
impl<N: AsName> NameSlice<N> for [N] {
    open spec fn ns(&self) -> Seq<N> { self@ }
    #[verifier::external_body]
    fn slice_from(&self, n: usize) -> (r: &[N]) { &self[n..] }
}

// ---- what each method does: the calls it makes, then what it hands over
/// why the calls failed
pub open spec fn why<'s, T>(tr: Tr<'s>, d: Rd<T>, e: crate::error::Error, rel: bool) -> bool {
    (tr matches Tr::Refuse(k) && e.kind == k) || (tr is Break && e.kind == ErrorKind::IllegalSchema) || (!rel && e.kind == ErrorKind::Io)
        || ((tr is Ok || d !is Val || !rel) && !(tr is Refuse) && rd_kind(d, e, rel))
}
/// after the calls (to stack `tr`, reading `d`), `h` is handed to the visitor, and its result is passed on
pub open spec fn hands<'s, 'd, V: Visitor<'d>, T>(tr: Tr<'s>, d: Rd<T>, h: How<'s>, v: V, r: core::result::Result<V::Value, crate::error::Error>, rel: bool) -> bool {
    if tr is Ok && d is Val { rel || r is Ok ==> v.visits(h, r) } else { r is Err }
}
/// the same, when what is handed over is a value
pub open spec fn gives<'s, 'd, V: Visitor<'d>, T>(tr: Tr<'s>, d: Rd<T>, h: How<'s>, v: V, r: core::result::Result<V::Value, crate::error::Error>, a: Ds<'s>, b: Ds<'s>, rel: bool) -> bool {
    if tr is Ok && d is Val { rel || r is Ok ==> v.visits(h, r) && b == mid(tr, d, a) } else { r is Err }
}
pub open spec fn mid<'s, T>(tr: Tr<'s>, d: Rd<T>, a: Ds<'s>) -> Ds<'s> { ds_ok(tr->Ok_0, a.rest.skip(rd_len(d))) }
pub open spec fn t_opt_rd<'s>(a: Ds<'s>) -> Tr<'s> { if rd_is(flag_rd(a.rest), true) { e_some(a.stack) } else { e_none(a.stack) } }
pub open spec fn h_opt<'s>(a: Ds<'s>, b: Ds<'s>) -> How<'s> { if rd_is(flag_rd(a.rest), true) { How::Some(mid(t_opt_rd(a), flag_rd(a.rest), a), b) } else { How::None } }
// sequences
pub open spec fn sl_rd<'s>(a: Ds<'s>) -> Rd<nat> {
    match top_schema(a.stack) {
        Schema::Seq(q) => match q.len { Some(n) => Rd::Val(n as nat, 0), None => len_rd(a.rest) },
        Schema::Tuple(i) => Rd::Val(i@.len(), 0),
        _ => Rd::Val(0, 0),
    }
}
pub open spec fn sl_kind<'s>(a: Ds<'s>) -> DeLike { match top_schema(a.stack) { Schema::Seq(_) => DeLike::Seq, Schema::Tuple(_) => DeLike::Tuple, _ => DeLike::Unit } }
pub open spec fn dl_elem<'a>(k: DeLike, s: Seq<StackFrame<'a>>) -> Tr<'a> {
    match k { DeLike::Seq => t_seq_elem(s), DeLike::Tuple => t_tuple_elem(s), DeLike::Unit => Tr::Refuse(ErrorKind::Other) }
}
pub open spec fn dl_end<'a>(k: DeLike, s: Seq<StackFrame<'a>>) -> Tr<'a> {
    match k { DeLike::Seq => t_finish_seq(s), DeLike::Tuple => t_finish_tuple(s), DeLike::Unit => Tr::Ok(s) }
}
pub open spec fn t_sl_begin<'s>(a: Ds<'s>) -> Tr<'s> {
    if !needs(a.stack) { Tr::Refuse(ErrorKind::ApiUsage) }
    else {
        match top_schema(a.stack) {
            Schema::Seq(q) => match q.len { Some(n) => t_begin_fixed(a.stack, n), None => e_begin_var(a.stack, rd_val(len_rd(a.rest)) as usize) },
            Schema::Tuple(_) => t_begin_tuple(a.stack),
            Schema::Unit => t_code(a.stack, Schema::Unit),
            Schema::Recurse(_) => Tr::Refuse(ErrorKind::IllegalSchema),
            _ => Tr::Refuse(ErrorKind::SchemaNonConformance),
        }
    }
}
/// begun, and if there is no element, ended as well
pub open spec fn t_sl<'s>(a: Ds<'s>, got: Option<usize>) -> Tr<'s> {
    match (t_sl_begin(a), sl_rd(a)) {
        (Tr::Ok(t), Rd::Val(n, _)) => if got is Some && got->Some_0 != n { Tr::Refuse(ErrorKind::SchemaNonConformance) } else if n == 0 { dl_end(sl_kind(a), t) } else { Tr::Ok(t) },
        (tr, _) => tr,
    }
}
pub open spec fn h_sl<'s>(a: Ds<'s>, got: Option<usize>, b: Ds<'s>) -> How<'s> { How::Seq(sl_kind(a), rd_val(sl_rd(a)) as usize, mid(t_sl(a, got), sl_rd(a), a), b) }
pub open spec fn t_map_rd<'s>(a: Ds<'s>) -> Tr<'s> {
    match (e_begin_var(a.stack, rd_val(len_rd(a.rest)) as usize), len_rd(a.rest)) { (Tr::Ok(t), Rd::Val(n, _)) => if n == 0 { t_finish_seq(t) } else { Tr::Ok(t) }, (tr, _) => tr }
}
pub open spec fn h_map<'s>(a: Ds<'s>, b: Ds<'s>) -> How<'s> { How::Map(rd_val(len_rd(a.rest)) as usize, mid(t_map_rd(a), len_rd(a.rest), a), b) }
pub open spec fn t_struct_rd<'s>(a: Ds<'s>, n: nat) -> Tr<'s> { then(t_begin_struct(a.stack), |t: Seq<StackFrame<'s>>| if n == 0 { t_finish_struct(t) } else { Tr::Ok(t) }) }
pub open spec fn h_struct<'s>(a: Ds<'s>, ns: Seq<Seq<char>>, b: Ds<'s>) -> How<'s> { How::Fields(ns, mid(t_struct_rd(a, ns.len()), unit_rd(a.rest), a), b) }
pub open spec fn en_rd<'s>(a: Ds<'s>) -> Rd<nat> { ord_rd(a.rest, nvars(a.stack)) }
pub open spec fn t_enum_rd<'s>(a: Ds<'s>, ns: Seq<Seq<char>>) -> Tr<'s> {
    match (e_ord_rd(a.stack, en_rd(a)), en_rd(a)) { (Tr::Ok(t), Rd::Val(n, _)) => if n < ns.len() { t_name(t, ns[n as int]) } else { Tr::Refuse(ErrorKind::SchemaNonConformance) }, (tr, _) => tr }
}
pub open spec fn h_enum<'s>(a: Ds<'s>, ns: Seq<Seq<char>>, b: Ds<'s>) -> How<'s> { How::Variant(rd_val(en_rd(a)) as usize, mid(t_enum_rd(a, ns), en_rd(a), a), b) }
pub proof fn lemma_skip0() ensures forall|s: Seq<u8>| #[trigger] s.skip(0) == s
{ assert forall|s: Seq<u8>| #[trigger] s.skip(0) == s by { assert(s.skip(0) =~= s); } }
//---- generated
/// as the schema says
pub open spec fn t_any<'s>(a: Ds<'s>) -> Tr<'s> {
    if !needs(a.stack) { Tr::Refuse(ErrorKind::ApiUsage) }
    else {
        match top_schema(a.stack) {
            Schema::Recurse(_) => Tr::Refuse(ErrorKind::IllegalSchema),
            Schema::Option(_) => t_opt_rd(a),
            Schema::Seq(_) | Schema::Tuple(_) => t_sl(a, None),
            Schema::Struct(f) => t_struct_rd(a, f@.len()),
            Schema::Enum(v) => t_enum_rd(a, names(v@)),
            x => t_code(a.stack, x),
        }
    }
}
pub open spec fn any<'s, 'd, V: Visitor<'d>>(v: V, r: core::result::Result<V::Value, crate::error::Error>, a: Ds<'s>, b: Ds<'s>, rel: bool) -> bool {
    if !needs(a.stack) { r is Err }
    else {
        match top_schema(a.stack) {
            Schema::Recurse(_) => r is Err,
            Schema::Option(_) => hands(t_opt_rd(a), flag_rd(a.rest), h_opt(a, b), v, r, rel),
            Schema::Seq(_) | Schema::Tuple(_) => hands(t_sl(a, None), sl_rd(a), h_sl(a, None, b), v, r, rel),
            Schema::Struct(f) => hands(t_struct_rd(a, f@.len()), unit_rd(a.rest), h_struct(a, names(f@), b), v, r, rel),
            Schema::Enum(e) => hands(t_enum_rd(a, names(e@)), en_rd(a), h_enum(a, names(e@), b), v, r, rel),
            Schema::Scalar(ScalarType::Bool) => gives(t_code(a.stack, Schema::Scalar(ScalarType::Bool)), flag_rd(a.rest), How::Bool(rd_val(flag_rd(a.rest))), v, r, a, b, rel),
            Schema::Scalar(ScalarType::I8) => gives(t_code(a.stack, Schema::Scalar(ScalarType::I8)), le_rd(a.rest, 1), How::Bits(ScalarType::I8, rd_val(le_rd(a.rest, 1))), v, r, a, b, rel),
            Schema::Scalar(ScalarType::I16) => gives(t_code(a.stack, Schema::Scalar(ScalarType::I16)), le_rd(a.rest, 2), How::Bits(ScalarType::I16, rd_val(le_rd(a.rest, 2))), v, r, a, b, rel),
            Schema::Scalar(ScalarType::U8) => gives(t_code(a.stack, Schema::Scalar(ScalarType::U8)), le_rd(a.rest, 1), How::Bits(ScalarType::U8, rd_val(le_rd(a.rest, 1))), v, r, a, b, rel),
            Schema::Scalar(ScalarType::U16) => gives(t_code(a.stack, Schema::Scalar(ScalarType::U16)), le_rd(a.rest, 2), How::Bits(ScalarType::U16, rd_val(le_rd(a.rest, 2))), v, r, a, b, rel),
            Schema::Scalar(ScalarType::F32) => gives(t_code(a.stack, Schema::Scalar(ScalarType::F32)), le_rd(a.rest, 4), How::Bits(ScalarType::F32, rd_val(le_rd(a.rest, 4))), v, r, a, b, rel),
            Schema::Scalar(ScalarType::F64) => gives(t_code(a.stack, Schema::Scalar(ScalarType::F64)), le_rd(a.rest, 8), How::Bits(ScalarType::F64, rd_val(le_rd(a.rest, 8))), v, r, a, b, rel),
            Schema::Scalar(ScalarType::U32) => gives(t_code(a.stack, Schema::Scalar(ScalarType::U32)), uint_rd(a.rest, u32::MAX as nat), How::Int(ScalarType::U32, rd_val(uint_rd(a.rest, u32::MAX as nat)) as int), v, r, a, b, rel),
            Schema::Scalar(ScalarType::U64) => gives(t_code(a.stack, Schema::Scalar(ScalarType::U64)), uint_rd(a.rest, u64::MAX as nat), How::Int(ScalarType::U64, rd_val(uint_rd(a.rest, u64::MAX as nat)) as int), v, r, a, b, rel),
            Schema::Scalar(ScalarType::U128) => gives(t_code(a.stack, Schema::Scalar(ScalarType::U128)), uint_rd(a.rest, u128::MAX as nat), How::Int(ScalarType::U128, rd_val(uint_rd(a.rest, u128::MAX as nat)) as int), v, r, a, b, rel),
            Schema::Scalar(ScalarType::I32) => gives(t_code(a.stack, Schema::Scalar(ScalarType::I32)), sint_rd(a.rest, i32::MIN as int, i32::MAX as int), How::Int(ScalarType::I32, rd_val(sint_rd(a.rest, i32::MIN as int, i32::MAX as int))), v, r, a, b, rel),
            Schema::Scalar(ScalarType::I64) => gives(t_code(a.stack, Schema::Scalar(ScalarType::I64)), sint_rd(a.rest, i64::MIN as int, i64::MAX as int), How::Int(ScalarType::I64, rd_val(sint_rd(a.rest, i64::MIN as int, i64::MAX as int))), v, r, a, b, rel),
            Schema::Scalar(ScalarType::I128) => gives(t_code(a.stack, Schema::Scalar(ScalarType::I128)), sint_rd(a.rest, i128::MIN as int, i128::MAX as int), How::Int(ScalarType::I128, rd_val(sint_rd(a.rest, i128::MIN as int, i128::MAX as int))), v, r, a, b, rel),
            Schema::Scalar(ScalarType::Char) => gives(t_code(a.stack, Schema::Scalar(ScalarType::Char)), char_rd(a.rest), How::Char(rd_val(char_rd(a.rest))), v, r, a, b, rel),
            Schema::Str => gives(t_code(a.stack, Schema::Str), str_rd(a.rest), How::Str(rd_val(str_rd(a.rest))), v, r, a, b, rel),
            Schema::Bytes => gives(t_code(a.stack, Schema::Bytes), bytes_rd(a.rest), How::Bytes(rd_val(bytes_rd(a.rest))), v, r, a, b, rel),
            Schema::Unit => gives(t_code(a.stack, Schema::Unit), unit_rd(a.rest), How::Unit, v, r, a, b, rel),
        }
    }
}

// ---- the accesses
/// what follows an element
pub ghost enum Ends { Not, Seq(DeLike), Entry, Map, Struct }
pub open spec fn t_ends<'s>(e: Ends, s: Seq<StackFrame<'s>>) -> Tr<'s> {
    match e {
        Ends::Not => Tr::Ok(s), Ends::Seq(k) => dl_end(k, s), Ends::Entry => t_finish_tuple(s), Ends::Struct => t_finish_struct(s),
        Ends::Map => then(t_finish_tuple(s), |t: Seq<StackFrame<'s>>| t_finish_seq(t)),
    }
}
/// The seed is given the decoder just before the element, once; what it makes of
/// it is the result; and then what follows the element is done.
pub open spec fn after_seed<'s, 'd, T: DeserializeSeed<'d>>(tr: Tr<'s>, e: Ends, seed: T, r: core::result::Result<T::Value, crate::error::Error>, a: Ds<'s>, b: Ds<'s>, rel: bool, m: Ds<'s>, v: core::result::Result<T::Value, crate::error::Error>) -> bool {
    &&& v is Err ==> r == v && b == m
    &&& v is Ok && !(e is Not) && m.broken ==> r is Err
    &&& v is Ok && (e is Not || !m.broken) ==> (if t_ends(e, m.stack) is Ok { (rel || r is Ok ==> r == v && b == Ds { stack: t_ends(e, m.stack)->Ok_0, ..m }) } else { r is Err })
}
pub open spec fn next_is<'s, 'd, T: DeserializeSeed<'d>>(tr: Tr<'s>, e: Ends, seed: T, r: core::result::Result<T::Value, crate::error::Error>, a: Ds<'s>, b: Ds<'s>, rel: bool) -> bool {
    if tr is Ok { rel || r is Ok ==> exists|h: How<'s>, v: core::result::Result<T::Value, crate::error::Error>| #[trigger] seed.takes(h, v) && h is Dec && h->Dec_0 == ds_ok(tr->Ok_0, a.rest) && after_seed(tr, e, seed, r, a, b, rel, h->Dec_1, v) } else { r is Err }
}
pub open spec fn val_of<T>(r: core::result::Result<Option<T>, crate::error::Error>) -> core::result::Result<T, crate::error::Error> { match r { Ok(x) => Ok(x->Some_0), Err(e) => Err(e) } }
pub open spec fn nexts<'s, 'd, T: DeserializeSeed<'d>>(tr: Tr<'s>, e: Ends, seed: T, r: core::result::Result<Option<T::Value>, crate::error::Error>, a: Ds<'s>, b: Ds<'s>, rel: bool) -> bool {
    (r is Ok ==> r->Ok_0 is Some) && next_is(tr, e, seed, val_of(r), a, b, rel)
}
pub open spec fn field_named<'s, 'd, T: DeserializeSeed<'d>>(tr: Tr<'s>, name: Seq<char>, seed: T, r: core::result::Result<Option<T::Value>, crate::error::Error>, a: Ds<'s>, b: Ds<'s>, rel: bool) -> bool {
    if tr is Ok { rel || r is Ok ==> (r is Ok ==> r->Ok_0 is Some) && b == ds_ok(tr->Ok_0, a.rest) && seed.takes(How::<'s>::Name(name), val_of(r)) } else { r is Err }
}
