# the serializer
@fn error::Error::other (error) -> r
@mode extern
@ens : r.kind == crate::error::ErrorKind::Other

@fn serde::ser::Encoder::serialize_seq_like (self, got_len) -> r
@tag C12
@req : cinv(*(*old(self)).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_seq_like(old(self).state.stack@, got_len).tr == Tr::Ok(r->Ok_0.encoder.state.stack@) && !r->Ok_0.encoder.state.broken
@ens C12 : !old(self).state.broken && r is Ok ==> r->Ok_0.encoder.write.written() == old(self).write.written() + r_seq_like(old(self).state.stack@, got_len).b
@ens C12 : r is Ok ==> r->Ok_0.seq_like == seq_like_as(old(self).state.stack@)
@ens C12 : r is Ok ==> *final(self) == *final(r->Ok_0.encoder)
@ens C12 : !old(self).state.broken && r_seq_like(old(self).state.stack@, got_len).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken || needs(old(self).state.stack@) && top_schema(old(self).state.stack@) is Recurse
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_seq_like(old(self).state.stack@, got_len).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : r is Ok ==> cinv(*r->Ok_0.encoder.state)
@ens C11 : r is Err ==> cinv(*final(self).state)
@ens : r is Ok ==> r->Ok_0.encoder.write.reliable() == old(self).write.reliable()
@ens : r is Err ==> final(self).write.reliable() == old(self).write.reliable()
@ens C10 : r is Err && old(self).state.stack@.len() > 0 ==> final(self).state.broken || final(self).state.stack@.len() > 0

# generated below
# the scalar methods
@for F,T,B in serialize_bool|Scalar(ScalarType::Bool)|seq![if v { 1u8 } else { 0u8 }]; serialize_i8|Scalar(ScalarType::I8)|le(v.bits(), 1); serialize_i16|Scalar(ScalarType::I16)|le(v.bits(), 2); \
 serialize_i32|Scalar(ScalarType::I32)|sint_enc(v as int); serialize_i64|Scalar(ScalarType::I64)|sint_enc(v as int); serialize_i128|Scalar(ScalarType::I128)|sint_enc(v as int); \
 serialize_u8|Scalar(ScalarType::U8)|le(v.bits(), 1); serialize_u16|Scalar(ScalarType::U16)|le(v.bits(), 2); serialize_u32|Scalar(ScalarType::U32)|uint_enc(v as nat); serialize_u64|Scalar(ScalarType::U64)|uint_enc(v as nat); \
 serialize_u128|Scalar(ScalarType::U128)|uint_enc(v as nat); serialize_f32|Scalar(ScalarType::F32)|le(v.bits(), 4); serialize_f64|Scalar(ScalarType::F64)|le(v.bits(), 8); serialize_char|Scalar(ScalarType::Char)|uint_enc(v as nat); \
 serialize_str|Str|str_enc(v@); serialize_bytes|Bytes|bytes_enc(v@)
@fn serde::ser::Encoder as Serializer::$F (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_of(t_code(old(self).state.stack@, Schema::$T), $B).tr == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> final(self).write.written() == old(self).write.written() + r_of(t_code(old(self).state.stack@, Schema::$T), $B).b
@ens C12 : !old(self).state.broken && r_of(t_code(old(self).state.stack@, Schema::$T), $B).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_of(t_code(old(self).state.stack@, Schema::$T), $B).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : cinv(*final(self).state)
@ens : final(self).write.reliable() == old(self).write.reliable()
@ens C10 : r is Err && old(self).state.stack@.len() > 0 ==> final(self).state.broken || final(self).state.stack@.len() > 0
@endfor
@fn serde::ser::Encoder as Serializer::serialize_none (self) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_of(e_none(old(self).state.stack@), seq![0u8]).tr == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> final(self).write.written() == old(self).write.written() + r_of(e_none(old(self).state.stack@), seq![0u8]).b
@ens C12 : !old(self).state.broken && r_of(e_none(old(self).state.stack@), seq![0u8]).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_of(e_none(old(self).state.stack@), seq![0u8]).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : cinv(*final(self).state)
@ens : final(self).write.reliable() == old(self).write.reliable()
@ens C10 : r is Err && old(self).state.stack@.len() > 0 ==> final(self).state.broken || final(self).state.stack@.len() > 0
@fn serde::ser::Encoder as Serializer::serialize_some (self, value) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> after(r_of(e_some(old(self).state.stack@), seq![1u8]), value).tr == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> final(self).write.written() == old(self).write.written() + after(r_of(e_some(old(self).state.stack@), seq![1u8]), value).b
@ens C12 : !old(self).state.broken && after(r_of(e_some(old(self).state.stack@), seq![1u8]), value).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(after(r_of(e_some(old(self).state.stack@), seq![1u8]), value).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : cinv(*final(self).state)
@ens : final(self).write.reliable() == old(self).write.reliable()
@fn serde::ser::Encoder as Serializer::serialize_unit (self) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_of(t_code(old(self).state.stack@, Schema::Unit), Seq::empty()).tr == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> final(self).write.written() == old(self).write.written() + r_of(t_code(old(self).state.stack@, Schema::Unit), Seq::empty()).b
@ens C12 : !old(self).state.broken && r_of(t_code(old(self).state.stack@, Schema::Unit), Seq::empty()).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_of(t_code(old(self).state.stack@, Schema::Unit), Seq::empty()).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : cinv(*final(self).state)
@ens : final(self).write.reliable() == old(self).write.reliable()
@ens C10 : r is Err && old(self).state.stack@.len() > 0 ==> final(self).state.broken || final(self).state.stack@.len() > 0
@fn serde::ser::Encoder as Serializer::serialize_unit_struct (self, _name) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_of(t_code(old(self).state.stack@, Schema::Unit), Seq::empty()).tr == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> final(self).write.written() == old(self).write.written() + r_of(t_code(old(self).state.stack@, Schema::Unit), Seq::empty()).b
@ens C12 : !old(self).state.broken && r_of(t_code(old(self).state.stack@, Schema::Unit), Seq::empty()).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_of(t_code(old(self).state.stack@, Schema::Unit), Seq::empty()).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : cinv(*final(self).state)
@ens : final(self).write.reliable() == old(self).write.reliable()
@ens C10 : r is Err && old(self).state.stack@.len() > 0 ==> final(self).state.broken || final(self).state.stack@.len() > 0
@fn serde::ser::Encoder as Serializer::serialize_unit_variant (self, _name, variant_index, variant) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_unit_variant(old(self).state.stack@, variant_index, variant@).tr == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> final(self).write.written() == old(self).write.written() + r_unit_variant(old(self).state.stack@, variant_index, variant@).b
@ens C12 : !old(self).state.broken && r_unit_variant(old(self).state.stack@, variant_index, variant@).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_unit_variant(old(self).state.stack@, variant_index, variant@).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : cinv(*final(self).state)
@ens : final(self).write.reliable() == old(self).write.reliable()
@ens C10 : r is Err && old(self).state.stack@.len() > 0 ==> final(self).state.broken || final(self).state.stack@.len() > 0
@fn serde::ser::Encoder as Serializer::serialize_newtype_struct (self, _name, value) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> value.does(old(self).state.stack@).tr == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> final(self).write.written() == old(self).write.written() + value.does(old(self).state.stack@).b
@ens C12 : !old(self).state.broken && value.does(old(self).state.stack@).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken || at_recurse(old(self).state.stack@)
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(value.does(old(self).state.stack@).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : cinv(*final(self).state)
@ens : final(self).write.reliable() == old(self).write.reliable()
@fn serde::ser::Encoder as Serializer::serialize_newtype_variant (self, _name, variant_index, variant, value) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> after(r_enum(old(self).state.stack@, variant_index, variant@), value).tr == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> final(self).write.written() == old(self).write.written() + after(r_enum(old(self).state.stack@, variant_index, variant@), value).b
@ens C12 : !old(self).state.broken && after(r_enum(old(self).state.stack@, variant_index, variant@), value).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(after(r_enum(old(self).state.stack@, variant_index, variant@), value).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : cinv(*final(self).state)
@ens : final(self).write.reliable() == old(self).write.reliable()
@fn serde::ser::Encoder as Serializer::serialize_seq (self, len) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_seq_like(old(self).state.stack@, len).tr == Tr::Ok(r->Ok_0.encoder.state.stack@) && !r->Ok_0.encoder.state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> r->Ok_0.encoder.write.written() == old(self).write.written() + r_seq_like(old(self).state.stack@, len).b
@ens C12 : r is Ok ==> *final(self) == *final(r->Ok_0.encoder)
@ens C12 : r is Ok ==> r->Ok_0.seq_like == seq_like_as(old(self).state.stack@)
@ens C12 : !old(self).state.broken && r_seq_like(old(self).state.stack@, len).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken || needs(old(self).state.stack@) && top_schema(old(self).state.stack@) is Recurse
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_seq_like(old(self).state.stack@, len).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : r is Ok ==> cinv(*r->Ok_0.encoder.state)
@ens C11 : r is Err ==> cinv(*final(self).state)
@ens : r is Ok ==> r->Ok_0.encoder.write.reliable() == old(self).write.reliable()
@ens : r is Err ==> final(self).write.reliable() == old(self).write.reliable()
@ens C10 : r is Err && old(self).state.stack@.len() > 0 ==> final(self).state.broken || final(self).state.stack@.len() > 0
@fn serde::ser::Encoder as Serializer::serialize_tuple (self, len) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_seq_like(old(self).state.stack@, Some(len)).tr == Tr::Ok(r->Ok_0.encoder.state.stack@) && !r->Ok_0.encoder.state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> r->Ok_0.encoder.write.written() == old(self).write.written() + r_seq_like(old(self).state.stack@, Some(len)).b
@ens C12 : r is Ok ==> *final(self) == *final(r->Ok_0.encoder)
@ens C12 : r is Ok ==> r->Ok_0.seq_like == seq_like_as(old(self).state.stack@)
@ens C12 : !old(self).state.broken && r_seq_like(old(self).state.stack@, Some(len)).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken || needs(old(self).state.stack@) && top_schema(old(self).state.stack@) is Recurse
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_seq_like(old(self).state.stack@, Some(len)).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : r is Ok ==> cinv(*r->Ok_0.encoder.state)
@ens C11 : r is Err ==> cinv(*final(self).state)
@ens : r is Ok ==> r->Ok_0.encoder.write.reliable() == old(self).write.reliable()
@ens : r is Err ==> final(self).write.reliable() == old(self).write.reliable()
@ens C10 : r is Err && old(self).state.stack@.len() > 0 ==> final(self).state.broken || final(self).state.stack@.len() > 0
@fn serde::ser::Encoder as Serializer::serialize_tuple_struct (self, _name, len) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_seq_like(old(self).state.stack@, Some(len)).tr == Tr::Ok(r->Ok_0.encoder.state.stack@) && !r->Ok_0.encoder.state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> r->Ok_0.encoder.write.written() == old(self).write.written() + r_seq_like(old(self).state.stack@, Some(len)).b
@ens C12 : r is Ok ==> *final(self) == *final(r->Ok_0.encoder)
@ens C12 : r is Ok ==> r->Ok_0.seq_like == seq_like_as(old(self).state.stack@)
@ens C12 : !old(self).state.broken && r_seq_like(old(self).state.stack@, Some(len)).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken || needs(old(self).state.stack@) && top_schema(old(self).state.stack@) is Recurse
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_seq_like(old(self).state.stack@, Some(len)).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : r is Ok ==> cinv(*r->Ok_0.encoder.state)
@ens C11 : r is Err ==> cinv(*final(self).state)
@ens : r is Ok ==> r->Ok_0.encoder.write.reliable() == old(self).write.reliable()
@ens : r is Err ==> final(self).write.reliable() == old(self).write.reliable()
@ens C10 : r is Err && old(self).state.stack@.len() > 0 ==> final(self).state.broken || final(self).state.stack@.len() > 0
@fn serde::ser::Encoder as Serializer::serialize_tuple_variant (self, _name, variant_index, variant, len) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_seq_variant(old(self).state.stack@, variant_index, variant@, len).tr == Tr::Ok(r->Ok_0.encoder.state.stack@) && !r->Ok_0.encoder.state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> r->Ok_0.encoder.write.written() == old(self).write.written() + r_seq_variant(old(self).state.stack@, variant_index, variant@, len).b
@ens C12 : r is Ok ==> *final(self) == *final(r->Ok_0.encoder)
@ens C12 : r is Ok ==> (r_enum(old(self).state.stack@, variant_index, variant@).tr matches Tr::Ok(t) && r->Ok_0.seq_like == seq_like_as(t))
@ens C12 : !old(self).state.broken && r_seq_variant(old(self).state.stack@, variant_index, variant@, len).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken || needs(old(self).state.stack@) && top_schema(old(self).state.stack@) is Recurse
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_seq_variant(old(self).state.stack@, variant_index, variant@, len).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : r is Ok ==> cinv(*r->Ok_0.encoder.state)
@ens C11 : r is Err ==> cinv(*final(self).state)
@ens : r is Ok ==> r->Ok_0.encoder.write.reliable() == old(self).write.reliable()
@ens : r is Err ==> final(self).write.reliable() == old(self).write.reliable()
@ens C10 : r is Err && old(self).state.stack@.len() > 0 ==> final(self).state.broken || final(self).state.stack@.len() > 0
@fn serde::ser::Encoder as Serializer::serialize_map (self, len) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_map(old(self).state.stack@, len).tr == Tr::Ok(r->Ok_0.state.stack@) && !r->Ok_0.state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> r->Ok_0.write.written() == old(self).write.written() + r_map(old(self).state.stack@, len).b
@ens C12 : r is Ok ==> *final(self) == *final(r->Ok_0)
@ens C12 : !old(self).state.broken && r_map(old(self).state.stack@, len).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken || needs(old(self).state.stack@) && top_schema(old(self).state.stack@) is Recurse
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_map(old(self).state.stack@, len).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : r is Ok ==> cinv(*r->Ok_0.state)
@ens C11 : r is Err ==> cinv(*final(self).state)
@ens : r is Ok ==> r->Ok_0.write.reliable() == old(self).write.reliable()
@ens : r is Err ==> final(self).write.reliable() == old(self).write.reliable()
@ens C10 : r is Err && old(self).state.stack@.len() > 0 ==> final(self).state.broken || final(self).state.stack@.len() > 0
@fn serde::ser::Encoder as Serializer::serialize_struct (self, _name, _len) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_of(t_begin_struct(old(self).state.stack@), Seq::empty()).tr == Tr::Ok(r->Ok_0.state.stack@) && !r->Ok_0.state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> r->Ok_0.write.written() == old(self).write.written() + r_of(t_begin_struct(old(self).state.stack@), Seq::empty()).b
@ens C12 : r is Ok ==> *final(self) == *final(r->Ok_0)
@ens C12 : !old(self).state.broken && r_of(t_begin_struct(old(self).state.stack@), Seq::empty()).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken || needs(old(self).state.stack@) && top_schema(old(self).state.stack@) is Recurse
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_of(t_begin_struct(old(self).state.stack@), Seq::empty()).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : r is Ok ==> cinv(*r->Ok_0.state)
@ens C11 : r is Err ==> cinv(*final(self).state)
@ens : r is Ok ==> r->Ok_0.write.reliable() == old(self).write.reliable()
@ens : r is Err ==> final(self).write.reliable() == old(self).write.reliable()
@ens C10 : r is Err && old(self).state.stack@.len() > 0 ==> final(self).state.broken || final(self).state.stack@.len() > 0
@fn serde::ser::Encoder as Serializer::serialize_struct_variant (self, _name, variant_index, variant, _len) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_struct_variant(old(self).state.stack@, variant_index, variant@).tr == Tr::Ok(r->Ok_0.state.stack@) && !r->Ok_0.state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> r->Ok_0.write.written() == old(self).write.written() + r_struct_variant(old(self).state.stack@, variant_index, variant@).b
@ens C12 : r is Ok ==> *final(self) == *final(r->Ok_0)
@ens C12 : !old(self).state.broken && r_struct_variant(old(self).state.stack@, variant_index, variant@).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken || needs(old(self).state.stack@) && top_schema(old(self).state.stack@) is Recurse
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_struct_variant(old(self).state.stack@, variant_index, variant@).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : r is Ok ==> cinv(*r->Ok_0.state)
@ens C11 : r is Err ==> cinv(*final(self).state)
@ens : r is Ok ==> r->Ok_0.write.reliable() == old(self).write.reliable()
@ens : r is Err ==> final(self).write.reliable() == old(self).write.reliable()
@ens C10 : r is Err && old(self).state.stack@.len() > 0 ==> final(self).state.broken || final(self).state.stack@.len() > 0
@fn serde::ser::SeqLikeSerializer::inner_serialize_element (self, value) -> r
@tag C12
@req : cinv(*(*(*old(self)).encoder).state)
@ens C07 : (*(*old(self)).encoder).state.broken ==> r is Err && (*(*final(self)).encoder).state.broken && *(*(*final(self)).encoder).write == *(*(*old(self)).encoder).write
@ens C12 : !(*(*old(self)).encoder).state.broken && r is Ok ==> after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).tr == Tr::Ok((*(*final(self)).encoder).state.stack@) && !(*(*final(self)).encoder).state.broken
@ens C12,C04 : !(*(*old(self)).encoder).state.broken && r is Ok ==> (*(*final(self)).encoder).write.written() == (*(*old(self)).encoder).write.written() + after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).b
@ens C12 : !(*(*old(self)).encoder).state.broken && after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).tr is Ok && (*(*old(self)).encoder).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> (*(*final(self)).encoder).state.broken
@ens C17 : !(*(*old(self)).encoder).state.broken && r is Err ==> ser_err(after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).tr, (*(*old(self)).encoder).write.reliable(), r->Err_0)
@ens C11 : cinv(*(*(*final(self)).encoder).state)
@ens : (*(*final(self)).encoder).write.reliable() == (*(*old(self)).encoder).write.reliable()
@ens C12 : *final(final(self).encoder) == *final(old(self).encoder) && final(self).seq_like == old(self).seq_like
@fn serde::ser::SeqLikeSerializer as SerializeSeq::serialize_element (self, value) -> r
@tag C12
@req : cinv(*(*(*old(self)).encoder).state)
@ens C07 : (*(*old(self)).encoder).state.broken ==> r is Err && (*(*final(self)).encoder).state.broken && *(*(*final(self)).encoder).write == *(*(*old(self)).encoder).write
@ens C12 : !(*(*old(self)).encoder).state.broken && r is Ok ==> after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).tr == Tr::Ok((*(*final(self)).encoder).state.stack@) && !(*(*final(self)).encoder).state.broken
@ens C12,C04 : !(*(*old(self)).encoder).state.broken && r is Ok ==> (*(*final(self)).encoder).write.written() == (*(*old(self)).encoder).write.written() + after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).b
@ens C12 : !(*(*old(self)).encoder).state.broken && after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).tr is Ok && (*(*old(self)).encoder).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> (*(*final(self)).encoder).state.broken
@ens C17 : !(*(*old(self)).encoder).state.broken && r is Err ==> ser_err(after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).tr, (*(*old(self)).encoder).write.reliable(), r->Err_0)
@ens C11 : cinv(*(*(*final(self)).encoder).state)
@ens : (*(*final(self)).encoder).write.reliable() == (*(*old(self)).encoder).write.reliable()
@ens C12 : *final(final(self).encoder) == *final(old(self).encoder) && final(self).seq_like == old(self).seq_like
@fn serde::ser::SeqLikeSerializer as SerializeTuple::serialize_element (self, value) -> r
@tag C12
@req : cinv(*(*(*old(self)).encoder).state)
@ens C07 : (*(*old(self)).encoder).state.broken ==> r is Err && (*(*final(self)).encoder).state.broken && *(*(*final(self)).encoder).write == *(*(*old(self)).encoder).write
@ens C12 : !(*(*old(self)).encoder).state.broken && r is Ok ==> after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).tr == Tr::Ok((*(*final(self)).encoder).state.stack@) && !(*(*final(self)).encoder).state.broken
@ens C12,C04 : !(*(*old(self)).encoder).state.broken && r is Ok ==> (*(*final(self)).encoder).write.written() == (*(*old(self)).encoder).write.written() + after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).b
@ens C12 : !(*(*old(self)).encoder).state.broken && after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).tr is Ok && (*(*old(self)).encoder).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> (*(*final(self)).encoder).state.broken
@ens C17 : !(*(*old(self)).encoder).state.broken && r is Err ==> ser_err(after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).tr, (*(*old(self)).encoder).write.reliable(), r->Err_0)
@ens C11 : cinv(*(*(*final(self)).encoder).state)
@ens : (*(*final(self)).encoder).write.reliable() == (*(*old(self)).encoder).write.reliable()
@ens C12 : *final(final(self).encoder) == *final(old(self).encoder) && final(self).seq_like == old(self).seq_like
@fn serde::ser::SeqLikeSerializer as SerializeTupleStruct::serialize_field (self, value) -> r
@tag C12
@req : cinv(*(*(*old(self)).encoder).state)
@ens C07 : (*(*old(self)).encoder).state.broken ==> r is Err && (*(*final(self)).encoder).state.broken && *(*(*final(self)).encoder).write == *(*(*old(self)).encoder).write
@ens C12 : !(*(*old(self)).encoder).state.broken && r is Ok ==> after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).tr == Tr::Ok((*(*final(self)).encoder).state.stack@) && !(*(*final(self)).encoder).state.broken
@ens C12,C04 : !(*(*old(self)).encoder).state.broken && r is Ok ==> (*(*final(self)).encoder).write.written() == (*(*old(self)).encoder).write.written() + after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).b
@ens C12 : !(*(*old(self)).encoder).state.broken && after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).tr is Ok && (*(*old(self)).encoder).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> (*(*final(self)).encoder).state.broken
@ens C17 : !(*(*old(self)).encoder).state.broken && r is Err ==> ser_err(after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).tr, (*(*old(self)).encoder).write.reliable(), r->Err_0)
@ens C11 : cinv(*(*(*final(self)).encoder).state)
@ens : (*(*final(self)).encoder).write.reliable() == (*(*old(self)).encoder).write.reliable()
@ens C12 : *final(final(self).encoder) == *final(old(self).encoder) && final(self).seq_like == old(self).seq_like
@fn serde::ser::SeqLikeSerializer as SerializeTupleVariant::serialize_field (self, value) -> r
@tag C12
@req : cinv(*(*(*old(self)).encoder).state)
@ens C07 : (*(*old(self)).encoder).state.broken ==> r is Err && (*(*final(self)).encoder).state.broken && *(*(*final(self)).encoder).write == *(*(*old(self)).encoder).write
@ens C12 : !(*(*old(self)).encoder).state.broken && r is Ok ==> after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).tr == Tr::Ok((*(*final(self)).encoder).state.stack@) && !(*(*final(self)).encoder).state.broken
@ens C12,C04 : !(*(*old(self)).encoder).state.broken && r is Ok ==> (*(*final(self)).encoder).write.written() == (*(*old(self)).encoder).write.written() + after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).b
@ens C12 : !(*(*old(self)).encoder).state.broken && after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).tr is Ok && (*(*old(self)).encoder).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> (*(*final(self)).encoder).state.broken
@ens C17 : !(*(*old(self)).encoder).state.broken && r is Err ==> ser_err(after(r_of(t_like_elem(old(self).seq_like, (*(*old(self)).encoder).state.stack@), Seq::empty()), value).tr, (*(*old(self)).encoder).write.reliable(), r->Err_0)
@ens C11 : cinv(*(*(*final(self)).encoder).state)
@ens : (*(*final(self)).encoder).write.reliable() == (*(*old(self)).encoder).write.reliable()
@ens C12 : *final(final(self).encoder) == *final(old(self).encoder) && final(self).seq_like == old(self).seq_like
@fn serde::ser::SeqLikeSerializer::inner_end (self) -> r
@tag C12
@req : cinv(*(*old(self.encoder)).state)
@ens C07 : (*old(self.encoder)).state.broken ==> (r is Err || self.seq_like is Unit) && (*final(self.encoder)).state.broken && *(*final(self.encoder)).write == *(*old(self.encoder)).write
@ens C12 : !(*old(self.encoder)).state.broken && r is Ok ==> r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).tr == Tr::Ok((*final(self.encoder)).state.stack@) && !(*final(self.encoder)).state.broken
@ens C12,C04 : !(*old(self.encoder)).state.broken && r is Ok ==> (*final(self.encoder)).write.written() == (*old(self.encoder)).write.written() + r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).b
@ens C12 : !(*old(self.encoder)).state.broken && r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).tr is Ok && (*old(self.encoder)).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> (*final(self.encoder)).state.broken
@ens C17 : !(*old(self.encoder)).state.broken && r is Err ==> ser_err(r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).tr, (*old(self.encoder)).write.reliable(), r->Err_0)
@ens C11 : cinv(*(*final(self.encoder)).state)
@ens : (*final(self.encoder)).write.reliable() == (*old(self.encoder)).write.reliable()
@ens C10 : r is Err && (*old(self.encoder)).state.stack@.len() > 0 ==> (*final(self.encoder)).state.broken || (*final(self.encoder)).state.stack@.len() > 0
@fn serde::ser::SeqLikeSerializer as SerializeSeq::end (self) -> r
@tag C12
@req : cinv(*(*old(self.encoder)).state)
@ens C07 : (*old(self.encoder)).state.broken ==> (r is Err || self.seq_like is Unit) && (*final(self.encoder)).state.broken && *(*final(self.encoder)).write == *(*old(self.encoder)).write
@ens C12 : !(*old(self.encoder)).state.broken && r is Ok ==> r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).tr == Tr::Ok((*final(self.encoder)).state.stack@) && !(*final(self.encoder)).state.broken
@ens C12,C04 : !(*old(self.encoder)).state.broken && r is Ok ==> (*final(self.encoder)).write.written() == (*old(self.encoder)).write.written() + r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).b
@ens C12 : !(*old(self.encoder)).state.broken && r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).tr is Ok && (*old(self.encoder)).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> (*final(self.encoder)).state.broken
@ens C17 : !(*old(self.encoder)).state.broken && r is Err ==> ser_err(r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).tr, (*old(self.encoder)).write.reliable(), r->Err_0)
@ens C11 : cinv(*(*final(self.encoder)).state)
@ens : (*final(self.encoder)).write.reliable() == (*old(self.encoder)).write.reliable()
@ens C10 : r is Err && (*old(self.encoder)).state.stack@.len() > 0 ==> (*final(self.encoder)).state.broken || (*final(self.encoder)).state.stack@.len() > 0
@fn serde::ser::SeqLikeSerializer as SerializeTuple::end (self) -> r
@tag C12
@req : cinv(*(*old(self.encoder)).state)
@ens C07 : (*old(self.encoder)).state.broken ==> (r is Err || self.seq_like is Unit) && (*final(self.encoder)).state.broken && *(*final(self.encoder)).write == *(*old(self.encoder)).write
@ens C12 : !(*old(self.encoder)).state.broken && r is Ok ==> r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).tr == Tr::Ok((*final(self.encoder)).state.stack@) && !(*final(self.encoder)).state.broken
@ens C12,C04 : !(*old(self.encoder)).state.broken && r is Ok ==> (*final(self.encoder)).write.written() == (*old(self.encoder)).write.written() + r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).b
@ens C12 : !(*old(self.encoder)).state.broken && r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).tr is Ok && (*old(self.encoder)).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> (*final(self.encoder)).state.broken
@ens C17 : !(*old(self.encoder)).state.broken && r is Err ==> ser_err(r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).tr, (*old(self.encoder)).write.reliable(), r->Err_0)
@ens C11 : cinv(*(*final(self.encoder)).state)
@ens : (*final(self.encoder)).write.reliable() == (*old(self.encoder)).write.reliable()
@ens C10 : r is Err && (*old(self.encoder)).state.stack@.len() > 0 ==> (*final(self.encoder)).state.broken || (*final(self.encoder)).state.stack@.len() > 0
@fn serde::ser::SeqLikeSerializer as SerializeTupleStruct::end (self) -> r
@tag C12
@req : cinv(*(*old(self.encoder)).state)
@ens C07 : (*old(self.encoder)).state.broken ==> (r is Err || self.seq_like is Unit) && (*final(self.encoder)).state.broken && *(*final(self.encoder)).write == *(*old(self.encoder)).write
@ens C12 : !(*old(self.encoder)).state.broken && r is Ok ==> r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).tr == Tr::Ok((*final(self.encoder)).state.stack@) && !(*final(self.encoder)).state.broken
@ens C12,C04 : !(*old(self.encoder)).state.broken && r is Ok ==> (*final(self.encoder)).write.written() == (*old(self.encoder)).write.written() + r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).b
@ens C12 : !(*old(self.encoder)).state.broken && r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).tr is Ok && (*old(self.encoder)).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> (*final(self.encoder)).state.broken
@ens C17 : !(*old(self.encoder)).state.broken && r is Err ==> ser_err(r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).tr, (*old(self.encoder)).write.reliable(), r->Err_0)
@ens C11 : cinv(*(*final(self.encoder)).state)
@ens : (*final(self.encoder)).write.reliable() == (*old(self.encoder)).write.reliable()
@ens C10 : r is Err && (*old(self.encoder)).state.stack@.len() > 0 ==> (*final(self.encoder)).state.broken || (*final(self.encoder)).state.stack@.len() > 0
@fn serde::ser::SeqLikeSerializer as SerializeTupleVariant::end (self) -> r
@tag C12
@req : cinv(*(*old(self.encoder)).state)
@ens C07 : (*old(self.encoder)).state.broken ==> (r is Err || self.seq_like is Unit) && (*final(self.encoder)).state.broken && *(*final(self.encoder)).write == *(*old(self.encoder)).write
@ens C12 : !(*old(self.encoder)).state.broken && r is Ok ==> r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).tr == Tr::Ok((*final(self.encoder)).state.stack@) && !(*final(self.encoder)).state.broken
@ens C12,C04 : !(*old(self.encoder)).state.broken && r is Ok ==> (*final(self.encoder)).write.written() == (*old(self.encoder)).write.written() + r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).b
@ens C12 : !(*old(self.encoder)).state.broken && r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).tr is Ok && (*old(self.encoder)).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> (*final(self.encoder)).state.broken
@ens C17 : !(*old(self.encoder)).state.broken && r is Err ==> ser_err(r_of(t_like_end(self.seq_like, (*old(self.encoder)).state.stack@), Seq::empty()).tr, (*old(self.encoder)).write.reliable(), r->Err_0)
@ens C11 : cinv(*(*final(self.encoder)).state)
@ens : (*final(self.encoder)).write.reliable() == (*old(self.encoder)).write.reliable()
@ens C10 : r is Err && (*old(self.encoder)).state.stack@.len() > 0 ==> (*final(self.encoder)).state.broken || (*final(self.encoder)).state.stack@.len() > 0
@fn serde::ser::Encoder as SerializeMap::serialize_key (self, key) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> after(r_of(t_key(old(self).state.stack@), Seq::empty()), key).tr == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> final(self).write.written() == old(self).write.written() + after(r_of(t_key(old(self).state.stack@), Seq::empty()), key).b
@ens C12 : !old(self).state.broken && after(r_of(t_key(old(self).state.stack@), Seq::empty()), key).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(after(r_of(t_key(old(self).state.stack@), Seq::empty()), key).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : cinv(*final(self).state)
@ens : final(self).write.reliable() == old(self).write.reliable()
@fn serde::ser::Encoder as SerializeMap::serialize_value (self, value) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_ended(after(r_of(t_tuple_elem(old(self).state.stack@), Seq::empty()), value), Kind::Tuple).tr == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> final(self).write.written() == old(self).write.written() + r_ended(after(r_of(t_tuple_elem(old(self).state.stack@), Seq::empty()), value), Kind::Tuple).b
@ens C12 : !old(self).state.broken && r_ended(after(r_of(t_tuple_elem(old(self).state.stack@), Seq::empty()), value), Kind::Tuple).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_ended(after(r_of(t_tuple_elem(old(self).state.stack@), Seq::empty()), value), Kind::Tuple).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : cinv(*final(self).state)
@ens : final(self).write.reliable() == old(self).write.reliable()
@fn serde::ser::Encoder as SerializeMap::end (self) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_of(t_finish_seq(old(self).state.stack@), Seq::empty()).tr == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> final(self).write.written() == old(self).write.written() + r_of(t_finish_seq(old(self).state.stack@), Seq::empty()).b
@ens C12 : !old(self).state.broken && r_of(t_finish_seq(old(self).state.stack@), Seq::empty()).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_of(t_finish_seq(old(self).state.stack@), Seq::empty()).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : cinv(*final(self).state)
@ens : final(self).write.reliable() == old(self).write.reliable()
@ens C10 : r is Err && old(self).state.stack@.len() > 0 ==> final(self).state.broken || final(self).state.stack@.len() > 0
@fn serde::ser::Encoder as SerializeStruct::serialize_field (self, key, value) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> after(r_of(t_field(old(self).state.stack@, key@), Seq::empty()), value).tr == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> final(self).write.written() == old(self).write.written() + after(r_of(t_field(old(self).state.stack@, key@), Seq::empty()), value).b
@ens C12 : !old(self).state.broken && after(r_of(t_field(old(self).state.stack@, key@), Seq::empty()), value).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(after(r_of(t_field(old(self).state.stack@, key@), Seq::empty()), value).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : cinv(*final(self).state)
@ens : final(self).write.reliable() == old(self).write.reliable()
@fn serde::ser::Encoder as SerializeStruct::end (self) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_of(t_finish_struct(old(self).state.stack@), Seq::empty()).tr == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> final(self).write.written() == old(self).write.written() + r_of(t_finish_struct(old(self).state.stack@), Seq::empty()).b
@ens C12 : !old(self).state.broken && r_of(t_finish_struct(old(self).state.stack@), Seq::empty()).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_of(t_finish_struct(old(self).state.stack@), Seq::empty()).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : cinv(*final(self).state)
@ens : final(self).write.reliable() == old(self).write.reliable()
@ens C10 : r is Err && old(self).state.stack@.len() > 0 ==> final(self).state.broken || final(self).state.stack@.len() > 0
@fn serde::ser::Encoder as SerializeStruct::skip_field (self, key) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_skip(old(self).state.stack@, key@).tr == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> final(self).write.written() == old(self).write.written() + r_skip(old(self).state.stack@, key@).b
@ens C12 : !old(self).state.broken && r_skip(old(self).state.stack@, key@).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_skip(old(self).state.stack@, key@).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : cinv(*final(self).state)
@ens : final(self).write.reliable() == old(self).write.reliable()
@ens C10 : r is Err && old(self).state.stack@.len() > 0 ==> final(self).state.broken || final(self).state.stack@.len() > 0
@fn serde::ser::Encoder as SerializeStructVariant::serialize_field (self, key, value) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> after(r_of(t_field(old(self).state.stack@, key@), Seq::empty()), value).tr == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> final(self).write.written() == old(self).write.written() + after(r_of(t_field(old(self).state.stack@, key@), Seq::empty()), value).b
@ens C12 : !old(self).state.broken && after(r_of(t_field(old(self).state.stack@, key@), Seq::empty()), value).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(after(r_of(t_field(old(self).state.stack@, key@), Seq::empty()), value).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : cinv(*final(self).state)
@ens : final(self).write.reliable() == old(self).write.reliable()
@fn serde::ser::Encoder as SerializeStructVariant::end (self) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_of(t_finish_struct(old(self).state.stack@), Seq::empty()).tr == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> final(self).write.written() == old(self).write.written() + r_of(t_finish_struct(old(self).state.stack@), Seq::empty()).b
@ens C12 : !old(self).state.broken && r_of(t_finish_struct(old(self).state.stack@), Seq::empty()).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_of(t_finish_struct(old(self).state.stack@), Seq::empty()).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : cinv(*final(self).state)
@ens : final(self).write.reliable() == old(self).write.reliable()
@ens C10 : r is Err && old(self).state.stack@.len() > 0 ==> final(self).state.broken || final(self).state.stack@.len() > 0
@fn serde::ser::Encoder as SerializeStructVariant::skip_field (self, key) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).write == *old(self).write
@ens C12 : !old(self).state.broken && r is Ok ==> r_skip(old(self).state.stack@, key@).tr == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens C12,C04 : !old(self).state.broken && r is Ok ==> final(self).write.written() == old(self).write.written() + r_skip(old(self).state.stack@, key@).b
@ens C12 : !old(self).state.broken && r_skip(old(self).state.stack@, key@).tr is Ok && old(self).write.reliable() ==> r is Ok
@ens C07 : r is Err && fatal(r->Err_0) ==> final(self).state.broken
@ens C17 : !old(self).state.broken && r is Err ==> ser_err(r_skip(old(self).state.stack@, key@).tr, old(self).write.reliable(), r->Err_0)
@ens C11 : cinv(*final(self).state)
@ens : final(self).write.reliable() == old(self).write.reliable()
@ens C10 : r is Err && old(self).state.stack@.len() > 0 ==> final(self).state.broken || final(self).state.stack@.len() > 0
