# the decoder
@fn decoder::Decoder::new (state, read) -> r
@ens C05,C16 : *r.state == *old(state) && *r.read == *old(read)
@fn decoder::Decoder::need (self) -> r
@ens C09 : r is Ok ==> (*old(self.state)).stack@.len() > 0 && (*old(self.state)).stack@.last().api_state is Need && *r->Ok_0 == *(*old(self.state)).stack@.last().schema && !(*r->Ok_0 is Recurse)
@ens C09 : needs((*old(self.state)).stack@) && !(top_schema((*old(self.state)).stack@) is Recurse) ==> r is Ok
@ens C17 : r is Err ==> r->Err_0.kind == (if (*old(self.state)).stack@.len() > 0 && top_schema((*old(self.state)).stack@) is Recurse { ErrorKind::IllegalSchema } else { ErrorKind::ApiUsage })
@fn decoder::Decoder::coder_state (self) -> r
@ens C10 : *r == *old(self.state)
@fn decoder::Decoder::read (self, buf) -> r
@tag C05
@ens C05 : r is Ok ==> old(self).read.rest().len() >= buf.sl().len() && r->Ok_0.sl() == old(self).read.rest().take(buf.sl().len() as int) && final(self).read.rest() == old(self).read.rest().skip(buf.sl().len() as int) && *final(self).state == *old(self).state
@ens C07 : r is Err ==> final(self).state.broken && final(self).state.stack@ == old(self).state.stack@
@ens C17 : r is Err ==> r->Err_0.kind == ErrorKind::Io
@ens C05,C17 : old(self).read.reliable() && old(self).read.rest().len() >= buf.sl().len() ==> r is Ok
@ens : final(self).read.reliable() == old(self).read.reliable()
@fn decoder::Decoder::read_onto (self, buf, len) -> r
@tag C05,C11
@locals remaining, chunk, start
@ens C05,C02 : r is Ok ==> old(self).read.rest().len() >= len && final(buf)@ == old(buf)@ + old(self).read.rest().take(len as int) && final(self).read.rest() == old(self).read.rest().skip(len as int) && *final(self).state == *old(self).state
@ens C07 : r is Err ==> final(self).state.broken && final(self).state.stack@ == old(self).state.stack@
@ens C17 : r is Err ==> r->Err_0.kind == ErrorKind::Io
@ens C05,C17 : old(self).read.reliable() && old(self).read.rest().len() >= len ==> r is Ok
@ens : final(self).read.reliable() == old(self).read.reliable()
@pre let ghost s0 = self.read.rest(); let ghost b0 = buf@; let ghost rel0 = self.read.reliable(); let ghost st0 = *self.state;
@loop 0
@inv C05,C02 : remaining <= len && s0.len() >= len - remaining
@inv C05,C02 : buf@ == b0 + s0.take(len - remaining)
@inv C05 : self.read.rest() == s0.skip(len - remaining)
@inv C07 : *self.state == st0
@inv : self.read.reliable() == rel0
@ldec remaining
@lbefore proof { assert(b0 + s0.take(0) =~= b0); assert(s0.skip(0) =~= s0); }
@lstart let ghost bb = buf@; let ghost sb = self.read.rest(); proof { vx::axiom_vec_len(buf); }
@lend proof { let d = len - remaining - chunk; assert(sb.skip(chunk as int) =~= s0.skip(d + chunk)); assert(s0.take(d) + s0.skip(d).take(chunk as int) =~= s0.take(d + chunk)); assert((bb + Seq::new(chunk as nat, |i: int| 0u8)).skip(bb.len() as int) =~= Seq::new(chunk as nat, |i: int| 0u8)); assert((bb + Seq::new(chunk as nat, |i: int| 0u8)).take(bb.len() as int) =~= bb); assert(b0 + s0.take(d) + s0.skip(d).take(chunk as int) =~= b0 + s0.take(d + chunk)); assert(buf@ =~= b0 + s0.take(d + chunk)); }

@fn decoder::Decoder::read_len (self) -> r
@tag C05
@ens C05 : r is Ok ==> rd_is(len_rd(old(self).read.rest()), r->Ok_0 as nat) && final(self).read.rest() == old(self).read.rest().skip(rd_len(len_rd(old(self).read.rest()))) && *final(self).state == *old(self).state
@ens C07 : r is Err ==> final(self).state.broken && final(self).state.stack@ == old(self).state.stack@
@ens C17 : r is Err ==> rd_kind(len_rd(old(self).read.rest()), r->Err_0, old(self).read.reliable())
@ens C05 : old(self).read.reliable() && len_rd(old(self).read.rest()) is Val ==> r is Ok
@ens : final(self).read.reliable() == old(self).read.reliable()

@for F,A,P,T,RD,VAL,X in decode_u8||C02|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U8))|le_rd(old(self).read.rest(), 1)|r->Ok_0.bits()|; \
 decode_u16||C02|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U16))|le_rd(old(self).read.rest(), 2)|r->Ok_0.bits()|; \
 decode_i8||C02|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I8))|le_rd(old(self).read.rest(), 1)|r->Ok_0.bits()|; \
 decode_i16||C02|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I16))|le_rd(old(self).read.rest(), 2)|r->Ok_0.bits()|; \
 decode_f32||C02|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::F32))|le_rd(old(self).read.rest(), 4)|r->Ok_0.bits()|; \
 decode_f64||C02|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::F64))|le_rd(old(self).read.rest(), 8)|r->Ok_0.bits()|; \
 decode_u32||C01|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U32))|uint_rd(old(self).read.rest(), u32::MAX as nat)|r->Ok_0 as nat|; \
 decode_u64||C01|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U64))|uint_rd(old(self).read.rest(), u64::MAX as nat)|r->Ok_0 as nat|; \
 decode_u128||C01|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U128))|uint_rd(old(self).read.rest(), u128::MAX as nat)|r->Ok_0 as nat|; \
 decode_i32||C01|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I32))|sint_rd(old(self).read.rest(), i32::MIN as int, i32::MAX as int)|r->Ok_0 as int|; \
 decode_i64||C01|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I64))|sint_rd(old(self).read.rest(), i64::MIN as int, i64::MAX as int)|r->Ok_0 as int|; \
 decode_i128||C01|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I128))|sint_rd(old(self).read.rest(), i128::MIN as int, i128::MAX as int)|r->Ok_0 as int|; \
 decode_char||C02|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::Char))|char_rd(old(self).read.rest())|(r->Ok_0 as u32) as nat|; \
 decode_bool||C02|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::Bool))|flag_rd(old(self).read.rest())|r->Ok_0|; \
 decode_unit||C02|t_code(old(self).state.stack@, Schema::Unit)|unit_rd(old(self).read.rest())|r->Ok_0|; \
 decode_str_into|, buf|C02|t_code(old(self).state.stack@, Schema::Str)|str_rd(old(self).read.rest())|encode_utf8(final(buf)@)|; \
 decode_str||C02|t_code(old(self).state.stack@, Schema::Str)|str_rd(old(self).read.rest())|encode_utf8(r->Ok_0@)|; \
 decode_bytes_into|, buf|C02|t_code(old(self).state.stack@, Schema::Bytes)|bytes_rd(old(self).read.rest())|final(buf)@|; \
 decode_bytes||C02|t_code(old(self).state.stack@, Schema::Bytes)|bytes_rd(old(self).read.rest())|r->Ok_0@|; \
 begin_fixed_len_seq|, len|C02|t_begin_fixed(old(self).state.stack@, len)|unit_rd(old(self).read.rest())|r->Ok_0|lemma_stable_steps(self.state.stack@); ; \
 begin_seq_elem||C02|t_seq_elem(old(self).state.stack@)|unit_rd(old(self).read.rest())|r->Ok_0|lemma_stable_steps(self.state.stack@); ; \
 finish_seq||C02|t_finish_seq(old(self).state.stack@)|unit_rd(old(self).read.rest())|r->Ok_0|lemma_stable_steps(self.state.stack@); ; \
 begin_tuple||C02|t_begin_tuple(old(self).state.stack@)|unit_rd(old(self).read.rest())|r->Ok_0|lemma_stable_steps(self.state.stack@); ; \
 begin_tuple_elem||C02|t_tuple_elem(old(self).state.stack@)|unit_rd(old(self).read.rest())|r->Ok_0|lemma_stable_steps(self.state.stack@); ; \
 finish_tuple||C02|t_finish_tuple(old(self).state.stack@)|unit_rd(old(self).read.rest())|r->Ok_0|lemma_stable_steps(self.state.stack@); ; \
 begin_struct||C02|t_begin_struct(old(self).state.stack@)|unit_rd(old(self).read.rest())|r->Ok_0|lemma_stable_steps(self.state.stack@); ; \
 begin_struct_field|, name|C02|t_field(old(self).state.stack@, name@)|unit_rd(old(self).read.rest())|r->Ok_0|lemma_stable_steps(self.state.stack@); ; \
 finish_struct||C02|t_finish_struct(old(self).state.stack@)|unit_rd(old(self).read.rest())|r->Ok_0|lemma_stable_steps(self.state.stack@); ; \
 begin_enum_variant|, name|C03|t_name(old(self).state.stack@, name@)|unit_rd(old(self).read.rest())|r->Ok_0|lemma_stable_steps(self.state.stack@); ; \
 begin_option||C02|(if rd_is(flag_rd(old(self).read.rest()), true) { e_some(old(self).state.stack@) } else { e_none(old(self).state.stack@) })|flag_rd(old(self).read.rest())|r->Ok_0|lemma_option_ready(self.state.stack@); ; \
 begin_var_len_seq||C02|e_begin_var(old(self).state.stack@, rd_val(len_rd(old(self).read.rest())) as usize)|len_rd(old(self).read.rest())|r->Ok_0 as nat|lemma_stable_steps(self.state.stack@); ; \
 begin_enum||C03|e_ord_rd(old(self).state.stack@, ord_rd(old(self).read.rest(), nvars(old(self).state.stack@)))|ord_rd(old(self).read.rest(), nvars(old(self).state.stack@))|r->Ok_0 as nat|lemma_enum_begin(self.state.stack@); 
@fn decoder::Decoder::$F (self$A) -> r
@tag C11
@req : cinv(*self.state)
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C05,C10 : !old(self).state.broken && r is Ok ==> $T == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens $P,C05 : !old(self).state.broken && r is Ok ==> rd_is($RD, $VAL) && final(self).read.rest() == old(self).read.rest().skip(rd_len($RD))
@ens C05,$P : !old(self).state.broken && $T is Ok && $RD is Val && old(self).read.reliable() ==> r is Ok
@ens C06 : r is Err && mild(r->Err_0) ==> final(self).state.stack@ == old(self).state.stack@ && final(self).state.broken == old(self).state.broken && *final(self).read == *old(self).read
@ens C07 : r is Err && !mild(r->Err_0) ==> final(self).state.broken
@ens C17 : !old(self).state.broken && r is Err ==> ($T matches Tr::Refuse(k) && r->Err_0.kind == k) || ($T is Break && r->Err_0.kind == ErrorKind::IllegalSchema) || (($T is Ok || $RD !is Val || !old(self).read.reliable()) && !($T is Refuse) && rd_kind($RD, r->Err_0, old(self).read.reliable()))
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@pre let ghost s0 = self.read.rest(); proof { axiom_stack(*self.state); lemma_prefixed(s0); if !self.state.broken { $X } assert(s0.skip(0) =~= s0); }
@endfor
