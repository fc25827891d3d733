# the encoder
@fn encoder::Encoder::new (state, write) -> r
@ens C04,C16 : *r.state == *old(state) && *r.write == *old(write)
@fn encoder::Encoder::need (self) -> r
@ens C09 : r is Ok ==> (*old(self.state)).stack@.len() > 0 && (*old(self.state)).stack@.last().api_state is Need && *r->Ok_0 == *(*old(self.state)).stack@.last().schema && !(*r->Ok_0 is Recurse)
@ens C09 : needs((*old(self.state)).stack@) && !(top_schema((*old(self.state)).stack@) is Recurse) ==> r is Ok
@ens C17 : r is Err ==> r->Err_0.kind == (if (*old(self.state)).stack@.len() > 0 && top_schema((*old(self.state)).stack@) is Recurse { ErrorKind::IllegalSchema } else { ErrorKind::ApiUsage })
@fn encoder::Encoder::coder_state (self) -> r
@ens C10 : *r == *old(self.state)
@fn encoder::Encoder::write (self, b) -> r
@tag C04
@ens C04 : r is Ok ==> final(self).write.written() == old(self).write.written() + b@ && *final(self).state == *old(self).state
@ens C07 : r is Err ==> final(self).state.broken && final(self).state.stack@ == old(self).state.stack@
@ens C17 : r is Err ==> r->Err_0.kind == ErrorKind::Io
@ens C04 : old(self).write.reliable() ==> r is Ok
@ens : final(self).write.reliable() == old(self).write.reliable()

@for F,A,P,T,RAW,X in encode_u8|, n|C02|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U8))|le(n.bits(), 1)|; \
 encode_u16|, n|C02|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U16))|le(n.bits(), 2)|; \
 encode_i8|, n|C02|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I8))|le(n.bits(), 1)|; \
 encode_i16|, n|C02|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I16))|le(n.bits(), 2)|; \
 encode_f32|, n|C02|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::F32))|le(n.bits(), 4)|; \
 encode_f64|, n|C02|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::F64))|le(n.bits(), 8)|; \
 encode_u32|, n|C01|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U32))|uint_enc(n as nat)|; \
 encode_u64|, n|C01|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U64))|uint_enc(n as nat)|; \
 encode_u128|, n|C01|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U128))|uint_enc(n as nat)|; \
 encode_char|, n|C02|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::Char))|uint_enc(n as nat)|vx::axiom_char(n); ; \
 encode_i32|, n|C01|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I32))|sint_enc(n as int)|; \
 encode_i64|, n|C01|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I64))|sint_enc(n as int)|; \
 encode_i128|, n|C01|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I128))|sint_enc(n as int)|; \
 encode_bool|, b|C02|t_code(old(self).state.stack@, Schema::Scalar(ScalarType::Bool))|seq![if b { 1u8 } else { 0u8 }]|; \
 encode_unit||C02|t_code(old(self).state.stack@, Schema::Unit)|Seq::<u8>::empty()|; \
 encode_str|, s|C02|t_code(old(self).state.stack@, Schema::Str)|str_enc(s@)|vx::axiom_str_len(s); ; \
 encode_bytes|, s|C02|t_code(old(self).state.stack@, Schema::Bytes)|bytes_enc(s@)|; \
 encode_none||C02|e_none(old(self).state.stack@)|seq![0u8]|lemma_option_ready(self.state.stack@); ; \
 begin_some||C02|e_some(old(self).state.stack@)|seq![1u8]|lemma_option_ready(self.state.stack@); ; \
 begin_fixed_len_seq|, len|C02|t_begin_fixed(old(self).state.stack@, len)|Seq::<u8>::empty()|lemma_stable_steps(self.state.stack@); ; \
 begin_var_len_seq|, len|C02|e_begin_var(old(self).state.stack@, len)|uint_enc(len as nat)|lemma_stable_steps(self.state.stack@); ; \
 begin_seq_elem||C02|t_seq_elem(old(self).state.stack@)|Seq::<u8>::empty()|lemma_stable_steps(self.state.stack@); ; \
 finish_seq||C02|t_finish_seq(old(self).state.stack@)|Seq::<u8>::empty()|lemma_stable_steps(self.state.stack@); ; \
 begin_tuple||C02|t_begin_tuple(old(self).state.stack@)|Seq::<u8>::empty()|lemma_stable_steps(self.state.stack@); ; \
 begin_tuple_elem||C02|t_tuple_elem(old(self).state.stack@)|Seq::<u8>::empty()|lemma_stable_steps(self.state.stack@); ; \
 finish_tuple||C02|t_finish_tuple(old(self).state.stack@)|Seq::<u8>::empty()|lemma_stable_steps(self.state.stack@); ; \
 begin_struct||C02|t_begin_struct(old(self).state.stack@)|Seq::<u8>::empty()|lemma_stable_steps(self.state.stack@); ; \
 begin_struct_field|, name|C02|t_field(old(self).state.stack@, name@)|Seq::<u8>::empty()|lemma_stable_steps(self.state.stack@); ; \
 finish_struct||C02|t_finish_struct(old(self).state.stack@)|Seq::<u8>::empty()|lemma_stable_steps(self.state.stack@); ; \
 begin_enum|, variant_ord, variant_name|C03|e_enum(old(self).state.stack@, variant_ord, variant_name@)|ord_enc(variant_ord as nat, nvars(old(self).state.stack@))|lemma_enum_ready(self.state.stack@, variant_ord, variant_name@); 
@fn encoder::Encoder::$F (self$A) -> r
@tag C11
@req : cinv(*self.state)
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).write == *old(self).write
@ens C04,C10 : !old(self).state.broken && r is Ok ==> $T == Tr::Ok(final(self).state.stack@) && !final(self).state.broken
@ens $P,C04 : !old(self).state.broken && r is Ok ==> final(self).write.written() == old(self).write.written() + $RAW
@ens C04 : !old(self).state.broken && $T is Ok && old(self).write.reliable() ==> r is Ok
@ens C06 : r is Err && mild(r->Err_0) ==> final(self).state.stack@ == old(self).state.stack@ && final(self).state.broken == old(self).state.broken && *final(self).write == *old(self).write
@ens C07 : r is Err && !mild(r->Err_0) ==> final(self).state.broken
@ens C17 : !old(self).state.broken && r is Err ==> ($T matches Tr::Refuse(k) && r->Err_0.kind == k) || ($T is Break && r->Err_0.kind == ErrorKind::IllegalSchema) || ($T is Ok && r->Err_0.kind == ErrorKind::Io && !old(self).write.reliable())
@ens C11 : cinv(*final(self).state)
@ens : final(self).write.reliable() == old(self).write.reliable()
@pre proof { axiom_stack(*self.state); if !self.state.broken { $X } }
@endfor
