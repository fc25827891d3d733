@fn coder::coder_alloc::CoderStateAlloc::from_stack (stack) -> r
@mode extern
@fn coder::coder_alloc::CoderStateAlloc::into_stack (self) -> r
@mode extern
@ens C16 : r@ == Seq::<StackFrame<'a>>::empty()
@fn coder::coder_alloc::CoderStateAlloc::new () -> r

@fn coder::coder::CoderState::new (schema, alloc) -> r
@tag C16
@ens C16,C10 : r.stack@ == seq![StackFrame { schema, parent: None, api_state: ApiState::Need }]
@ens C16,C10,C07 : !r.broken
@ens C11 : cinv(r)
@fn coder::coder::CoderState::is_finished (self) -> r
@ens C10,C07 : r == (self.stack@.len() == 0 && !self.broken)
@fn coder::coder::CoderState::is_finished_or_err (self) -> r
@ens C10,C07 : r is Ok <==> (self.stack@.len() == 0 && !self.broken)
@ens C17 : r is Err ==> r->Err_0.kind == crate::error::ErrorKind::ApiUsage
@fn coder::coder::CoderState::into_alloc (self) -> r
@tag C16

@fn coder::coder::CoderState::top (self) -> r
@tag C11
@req : self.stack@.len() > 0
@ens : *r == old(self).stack@.last()
@ens : final(self).stack@ == old(self).stack@.update(old(self).stack@.len() - 1, *final(r))
@ens : final(self).broken == old(self).broken

@fn coder::coder::CoderState::push_need (self, schema) -> r
@locals parent, n, i
@tag C09
@req : self.stack@.len() > 0 && wfx(self.stack@) && outer_ok(self.stack@.last()) && !self.broken
@ens C09,C04,C05 : r is Ok ==> pushed(old(self).stack@, *schema) == Tr::Ok(final(self).stack@) && !final(self).broken
@ens C09,C04,C05 : pushed(old(self).stack@, *schema) is Ok ==> r is Ok
@ens C07 : r is Err ==> final(self).broken
@ens C17 : r is Err ==> r->Err_0.kind == crate::error::ErrorKind::IllegalSchema
@pre let ghost stk = self.stack@; let ghost sch0 = *schema; proof { axiom_stack(*self); lemma_pushed(stk, sch0); }
@loop 0
@inv C09 : self.stack@ == stk && !self.broken
@inv C09 : parent matches Some(p) ==> p < stk.len()
@inv C09 : *schema == sch0 && parent == Some((stk.len() - 1) as usize) || !(*schema is Recurse) && pushed(stk, sch0) == Tr::Ok(stk.push(StackFrame { schema, parent, api_state: ApiState::Need }))
@lens C09 : !(*schema is Recurse)
@lens C09 : pushed(stk, sch0) == Tr::Ok(stk.push(StackFrame { schema, parent, api_state: ApiState::Need }))
@ldec (if *schema is Recurse { 1int } else { 0 })
@loop 1
@inv C09 : parent matches Some(p) ==> p < stk.len()
@inv C09 : __i1 <= __n1 && __i1 >= 1
@invx C09 : up(stk, Some((stk.len() - 1) as usize), (n - 1) as nat) == up(stk, parent, (__n1 - __i1) as nat)
@lens C09 : up(stk, Some((stk.len() - 1) as usize), (n - 1) as nat) == parent
@ldec __n1 - __i1

@fn coder::coder::CoderState::pop (self) -> r
@tag C10,C11
@req : self.stack@.len() > 0
@ens C10,C04,C05 : final(self).stack@ == popped(old(self).stack@)
@ens C07 : final(self).broken == old(self).broken
@pre let ghost stk = self.stack@;
@loop 0
@inv C10 : strip(self.stack@) == strip(stk.drop_last())
@inv C10 : self.broken == old(self).broken
@ldec self.stack@.len()

@fn coder::coder::CoderState::need (self) -> r
@ens C09 : r is Ok ==> self.stack@.len() > 0 && self.stack@.last().api_state is Need && *r->Ok_0 == *self.stack@.last().schema && !(*r->Ok_0 is Recurse)
@ens C09 : needs(self.stack@) && !(top_schema(self.stack@) is Recurse) ==> r is Ok
@ens C17 : r is Err ==> r->Err_0.kind == (if self.stack@.len() > 0 && top_schema(self.stack@) is Recurse { ErrorKind::IllegalSchema } else { ErrorKind::ApiUsage })

@fn coder::coder::CoderState::mark_broken (self) -> r
@ens C07 : final(self).broken
@ens : final(self).stack@ == old(self).stack@

@for F,S in code_u8|Scalar(ScalarType::U8); code_u16|Scalar(ScalarType::U16); code_u32|Scalar(ScalarType::U32); code_u64|Scalar(ScalarType::U64); code_u128|Scalar(ScalarType::U128); \
 code_i8|Scalar(ScalarType::I8); code_i16|Scalar(ScalarType::I16); code_i32|Scalar(ScalarType::I32); code_i64|Scalar(ScalarType::I64); code_i128|Scalar(ScalarType::I128); \
 code_f32|Scalar(ScalarType::F32); code_f64|Scalar(ScalarType::F64); code_char|Scalar(ScalarType::Char); code_bool|Scalar(ScalarType::Bool); code_unit|Unit; code_str|Str; code_bytes|Bytes
@fn coder::coder::CoderState::$F (self) -> r
@tag C11
@req : cinv(*self)
@ens C07 : old(self).broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).broken && final(self).stack@ == old(self).stack@
@ens C04,C05,C10 : !old(self).broken && r is Ok ==> t_code(old(self).stack@, Schema::$S) == Tr::Ok(final(self).stack@) && !final(self).broken
@ens C04,C05 : !old(self).broken && t_code(old(self).stack@, Schema::$S) is Ok ==> r is Ok
@ens C06 : r is Err && mild(r->Err_0) ==> final(self).stack@ == old(self).stack@ && final(self).broken == old(self).broken
@ens C07 : r is Err && !mild(r->Err_0) ==> final(self).broken
@ens C17 : !old(self).broken && r is Err ==> (t_code(old(self).stack@, Schema::$S) matches Tr::Refuse(k) && r->Err_0.kind == k) || (t_code(old(self).stack@, Schema::$S) is Break && r->Err_0.kind == ErrorKind::IllegalSchema)
@ens C11 : cinv(*final(self))
@pre proof { if !self.broken && self.stack@.len() > 0 { lemma_popped(self.stack@); assert(self.stack@.last() == self.stack@[self.stack@.len() - 1]); } }
@endfor

@for F,A,T in begin_option|self|t_begin_option(old(self).stack@); begin_fixed_len_seq|self, len|t_begin_fixed(old(self).stack@, len); begin_var_len_seq|self|t_begin_var(old(self).stack@); \
 begin_seq_elem|self|t_seq_elem(old(self).stack@); finish_seq|self|t_finish_seq(old(self).stack@); begin_tuple|self|t_begin_tuple(old(self).stack@); begin_tuple_elem|self|t_tuple_elem(old(self).stack@); \
 finish_tuple|self|t_finish_tuple(old(self).stack@); begin_struct|self|t_begin_struct(old(self).stack@); begin_struct_field|self, name|t_field(old(self).stack@, name@); finish_struct|self|t_finish_struct(old(self).stack@); \
 begin_enum|self|t_begin_enum(old(self).stack@); begin_enum_variant_ord|self, variant_ord|t_ord(old(self).stack@, variant_ord); begin_enum_variant_name|self, variant_name|t_name(old(self).stack@, variant_name@)
@fn coder::coder::CoderState::$F ($A) -> r
@tag C11
@req : cinv(*self)
@ens C07 : old(self).broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).broken && final(self).stack@ == old(self).stack@
@ens C04,C05,C10 : !old(self).broken && r is Ok ==> $T == Tr::Ok(final(self).stack@) && !final(self).broken
@ens C04,C05 : !old(self).broken && $T is Ok ==> r is Ok
@ens C06 : r is Err && mild(r->Err_0) ==> final(self).stack@ == old(self).stack@ && final(self).broken == old(self).broken
@ens C07 : r is Err && !mild(r->Err_0) ==> final(self).broken
@ens C17 : !old(self).broken && r is Err ==> ($T matches Tr::Refuse(k) && r->Err_0.kind == k) || ($T is Break && r->Err_0.kind == ErrorKind::IllegalSchema)
@ens C11 : final(self).broken || wfs(final(self).stack@)
@ens C11 : r is Err ==> cinv(*final(self))
@pre proof { axiom_stack(*self); if !self.broken && self.stack@.len() > 0 { let s = self.stack@; lemma_popped(s); lemma_begins(s); assert(s.last() == s[s.len() - 1]); assert(frame_ok(s.last())); } }
@endfor
@fn coder::coder::CoderState::set_option_none (self) -> r
@tag C11
@req : !self.broken && wfs(self.stack@) && self.stack@.len() > 0 && top_state(self.stack@) is OptionUninitSomeness
@ens C04,C05,C10 : t_none(old(self).stack@) == Tr::Ok(final(self).stack@) && !final(self).broken
@ens C11 : cinv(*final(self))
@pre proof { lemma_popped(self.stack@); }
@fn coder::coder::CoderState::set_option_some (self) -> r
@tag C11
@req : !self.broken && wfs(self.stack@) && self.stack@.len() > 0 && top_state(self.stack@) is OptionUninitSomeness
@ens C04,C05,C09 : r is Ok ==> t_some(old(self).stack@) == Tr::Ok(final(self).stack@) && !final(self).broken
@ens C04,C05,C09 : t_some(old(self).stack@) is Ok ==> r is Ok
@ens C07 : r is Err ==> final(self).broken
@ens C17 : r is Err ==> r->Err_0.kind == ErrorKind::IllegalSchema
@ens C11 : cinv(*final(self))
@pre proof { axiom_stack(*self); let s = self.stack@; assert(s.last() == s[s.len() - 1]); assert(frame_ok(s.last())); lemma_settop(s, ApiState::AutoFinish); lemma_pushed(settop(s, ApiState::AutoFinish), *top_schema(s)->Option_0); }
@fn coder::coder::CoderState::set_var_len_seq_len (self, len) -> r
@tag C11
@req : !self.broken && wfs(self.stack@) && self.stack@.len() > 0 && top_state(self.stack@) is SeqUninitLen
@ens C04,C05,C10 : t_set_len(old(self).stack@, len) == Tr::Ok(final(self).stack@) && !final(self).broken
@ens C11 : cinv(*final(self))
@pre proof { let s = self.stack@; assert(s.last() == s[s.len() - 1]); assert(frame_ok(s.last())); lemma_settop(s, ApiState::Seq { len, next: 0 }); }
@fn coder::coder::CoderState::cancel_enum (self) -> r
@tag C11
@req : !self.broken ==> wfs(self.stack@) && self.stack@.len() > 0 && top_state(self.stack@) is Enum
@ens C06 : old(self).broken ==> final(self).broken && final(self).stack@ == old(self).stack@
@ens C06 : !old(self).broken ==> !final(self).broken && final(self).stack@ == settop(old(self).stack@, ApiState::Need)
@ens C11 : cinv(*final(self))
@pre proof { if !self.broken { let s = self.stack@; assert(s.last() == s[s.len() - 1]); assert(frame_ok(s.last())); lemma_setneed(s); } }
@more coder::coder::CoderState::begin_enum
@ens C03,C04 : r is Ok ==> r->Ok_0 as nat == nvars(old(self).stack@)
