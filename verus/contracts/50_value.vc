# dynamic values
@fn value::ScalarValue::encode_to (self, e) -> r
@tag C08,C11
@req : cinv(*e.state)
@ens C07 : old(e).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(e).state.broken && *final(e).write == *old(e).write
@ens C08 : !old(e).state.broken && r is Ok ==> run(gscalar(self), old(e).state.stack@).tr == Tr::Ok(final(e).state.stack@) && !final(e).state.broken
@ens C08 : !old(e).state.broken && r is Ok ==> final(e).write.written() == old(e).write.written() + run(gscalar(self), old(e).state.stack@).b
@ens C08 : !old(e).state.broken && run(gscalar(self), old(e).state.stack@).tr is Ok && old(e).write.reliable() ==> r is Ok
@ens C07 : r is Err && !mild(r->Err_0) ==> final(e).state.broken
@ens C17 : !old(e).state.broken && r is Err ==> (run(gscalar(self), old(e).state.stack@).tr matches Tr::Refuse(k) && r->Err_0.kind == k) || (run(gscalar(self), old(e).state.stack@).tr is Break && r->Err_0.kind == ErrorKind::IllegalSchema) || (r->Err_0.kind == ErrorKind::Io && !old(e).write.reliable())
@ens C11 : cinv(*final(e).state)
@ens : final(e).write.reliable() == old(e).write.reliable()
@ens C10 : r is Err && old(e).state.stack@.len() > 0 ==> final(e).state.broken || final(e).state.stack@.len() > 0
@pre proof { lemma_gscalar(self); lemma_run_leaf(gscalar(self), e.state.stack@, e.write.written()); }
@fn value::Value::encode_to (self, e) -> r
@tag C08,C11
@req : cinv(*e.state)
@ens C07 : old(e).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(e).state.broken && *final(e).write == *old(e).write
@ens C08 : !old(e).state.broken && r is Ok ==> run(gv(*self), old(e).state.stack@).tr == Tr::Ok(final(e).state.stack@) && !final(e).state.broken
@ens C08 : !old(e).state.broken && r is Ok ==> final(e).write.written() == old(e).write.written() + run(gv(*self), old(e).state.stack@).b
@ens C08 : !old(e).state.broken && run(gv(*self), old(e).state.stack@).tr is Ok && old(e).write.reliable() ==> r is Ok
@ens C07 : r is Err && !mild(r->Err_0) ==> final(e).state.broken
@ens C17 : !old(e).state.broken && r is Err ==> (run(gv(*self), old(e).state.stack@).tr matches Tr::Refuse(k) && r->Err_0.kind == k) || (run(gv(*self), old(e).state.stack@).tr is Break && r->Err_0.kind == ErrorKind::IllegalSchema) || (r->Err_0.kind == ErrorKind::Io && !old(e).write.reliable())
@ens C11 : cinv(*final(e).state)
@ens : final(e).write.reliable() == old(e).write.reliable()
@ens C10 : r is Err && old(e).state.stack@.len() > 0 ==> final(e).state.broken || final(e).state.stack@.len() > 0
@dec *self
@isolate
@pre hide(crate::vs::stable); hide(crate::vs::e_none); hide(crate::vs::e_some); hide(crate::vs::e_enum); hide(crate::vs::e_begin_var); hide(crate::vs::t_code); hide(crate::vs::t_begin_fixed); hide(crate::vs::t_begin_tuple); hide(crate::vs::t_begin_struct); hide(crate::vs::t_seq_elem); hide(crate::vs::t_tuple_elem); hide(crate::vs::t_field); hide(crate::vs::t_finish_seq); hide(crate::vs::t_finish_tuple); hide(crate::vs::t_finish_struct); hide(crate::vs::str_enc); hide(crate::vs::bytes_enc); hide(crate::vs::uint_enc); hide(crate::vs::ord_enc); let ghost s0 = e.state.stack@; let ghost w0 = e.write.written(); let ghost rel0 = e.write.reliable(); let ghost g0 = gv(*self); proof { axiom_depth(*self); axiom_stack(*e.state); lemma_gv(*self); if has_elems(g0) { lemma_run_begin(g0, s0); } else { lemma_run_leaf(g0, s0, w0); } }
@for N,P in 0|elems_are(*self, __s0@) && gkind(g0) is Seq; 1|elems_are(*self, __s1@) && gkind(g0) is Seq; 2|elems_are(*self, __s2@) && gkind(g0) is Tuple; 3|fields_are(*self, __s3@)
@loop $N
@inv : $P
@inv : !old(e).state.broken && stable(s0) && s0.len() <= isize::MAX && depth(g0) <= isize::MAX
@inv : g0 == gv(*self) && has_elems(g0) && begun(g0, s0) == Tr::Ok(t0) && gelems(g0).len() == __s$N@.len() && rel0 == old(e).write.reliable() && s0 == old(e).state.stack@ && w0 == old(e).write.written() && !old(e).state.broken && w1 == w0 + gpfx(g0)
@inv C11 : cinv(*e.state) && !e.state.broken
@inv : e.write.reliable() == rel0
@inv C08 : run_to(g0, __i$N as int, t0).tr == Tr::Ok(e.state.stack@)
@inv C08 : e.write.written() == w1 + run_to(g0, __i$N as int, t0).b
@inv C08 : __i$N <= __s$N@.len()
@ldec __s$N@.len() - __i$N
@lbefore let ghost t0 = e.state.stack@; let ghost w1 = e.write.written();
@lstart proof { lemma_gv(*self); lemma_gelem(*self, __i$N as int); lemma_run_to(g0, __i$N as int, s0, t0, w1); lemma_run_len(g0, __i$N as int, s0, t0); }
@lafter proof { lemma_run_finish(g0, s0, t0, w0); lemma_run_len(g0, gelems(g0).len() as int, s0, t0); }
@endfor
@fn value::ScalarValue::decode_from (d, scalar_type) -> r
@tag C08,C11
@req : cinv(*d.state)
@ens C07 : old(d).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(d).state.broken && *final(d).read == *old(d).read
@ens C08,C10 : !old(d).state.broken && r is Ok ==> t_code(old(d).state.stack@, Schema::Scalar(scalar_type)) == Tr::Ok(final(d).state.stack@) && !final(d).state.broken
@ens C08,C05 : !old(d).state.broken && r is Ok ==> sdec(r->Ok_0, scalar_type, old(d).read.rest()) is Some && final(d).read.rest() == old(d).read.rest().skip(sdec(r->Ok_0, scalar_type, old(d).read.rest())->Some_0 as int)
@ens C08,C05 : !old(d).state.broken && r is Err && old(d).read.reliable() && t_code(old(d).state.stack@, Schema::Scalar(scalar_type)) is Ok ==> scalar_none(scalar_type, old(d).read.rest())
@ens C06 : r is Err && mild(r->Err_0) ==> final(d).state.stack@ == old(d).state.stack@ && final(d).state.broken == old(d).state.broken && *final(d).read == *old(d).read
@ens C07 : r is Err && !mild(r->Err_0) ==> final(d).state.broken
@ens C17 : !old(d).state.broken && r is Err ==> (t_code(old(d).state.stack@, Schema::Scalar(scalar_type)) matches Tr::Refuse(k) && r->Err_0.kind == k) || !(t_code(old(d).state.stack@, Schema::Scalar(scalar_type)) is Refuse) && fatal(r->Err_0)
@ens C11 : cinv(*final(d).state)
@ens : final(d).read.reliable() == old(d).read.reliable()
@isolate
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@split scalar_type is U8 || scalar_type is U16 || scalar_type is I8 || scalar_type is I16
@split scalar_type is U32 || scalar_type is U64 || scalar_type is U128
@split scalar_type is I32 || scalar_type is I64 || scalar_type is I128
@pre hide(crate::vs::le_rd); hide(crate::vs::uint_rd); hide(crate::vs::sint_rd); hide(crate::vs::char_rd); hide(crate::vs::flag_rd); hide(crate::vs::stable); hide(crate::vs::popped); hide(crate::vs::scalar_dec); hide(crate::vs::gscalar); hide(crate::vs::t_code); hide(crate::vs::sdec); proof { lemma_scalar_none(scalar_type, d.read.rest()); lemma_read_as(d.read.rest()); }
@fn value::Value::decode_from (d) -> r
@tag C08,C11
@attr #[verifier::exec_allows_no_decreases_clause]
@req : cinv(*d.state)
@ens C07 : old(d).state.broken ==> r is Err && final(d).state.broken && *final(d).read == *old(d).read
@ens C08,C10 : !old(d).state.broken && r is Ok ==> needs(old(d).state.stack@) && final(d).state.stack@ == popped(old(d).state.stack@) && !final(d).state.broken
@ens C08,C05 : !old(d).state.broken && r is Ok ==> (dec(gv(r->Ok_0), top_path(old(d).state.stack@), old(d).read.rest()) matches Some(k) && final(d).read.rest() == old(d).read.rest().skip(k as int))
@ens C08,C05 : !old(d).state.broken && r is Err && old(d).read.reliable() && needs(old(d).state.stack@) && !(top_schema(old(d).state.stack@) is Recurse) ==> nothing(top_path(old(d).state.stack@), old(d).read.rest())
@ens C06 : r is Err && mild(r->Err_0) ==> final(d).state.stack@ == old(d).state.stack@ && final(d).state.broken == old(d).state.broken && *final(d).read == *old(d).read
@ens C07 : r is Err && !mild(r->Err_0) ==> final(d).state.broken || top_schema(old(d).state.stack@) is Recurse && final(d).state.stack@ == old(d).state.stack@ && *final(d).read == *old(d).read
@ens C17 : !old(d).state.broken && r is Err ==> (if needs(old(d).state.stack@) { fatal(r->Err_0) } else { r->Err_0.kind == ErrorKind::ApiUsage })
@ens C11 : cinv(*final(d).state)
@ens : final(d).read.reliable() == old(d).read.reliable()
@isolate
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@split old(d).state.broken || !needs(old(d).state.stack@)
@split top_schema(old(d).state.stack@) is Scalar
@split top_schema(old(d).state.stack@) is Str || top_schema(old(d).state.stack@) is Bytes || top_schema(old(d).state.stack@) is Unit
@split top_schema(old(d).state.stack@) is Option
@split (top_schema(old(d).state.stack@) matches Schema::Seq(q) && q.len is Some)
@split (top_schema(old(d).state.stack@) matches Schema::Seq(q) && q.len is None)
@split top_schema(old(d).state.stack@) is Tuple
@split top_schema(old(d).state.stack@) is Struct
@pre hide(crate::vs::stable); hide(crate::vs::e_none); hide(crate::vs::e_some); hide(crate::vs::e_begin_var); hide(crate::vs::e_ord); hide(crate::vs::t_begin_fixed); hide(crate::vs::t_begin_tuple); hide(crate::vs::t_begin_struct); hide(crate::vs::t_seq_elem); hide(crate::vs::t_tuple_elem); hide(crate::vs::t_field); hide(crate::vs::t_finish_seq); hide(crate::vs::t_finish_tuple); hide(crate::vs::t_finish_struct); hide(crate::vs::t_name); hide(crate::vs::len_rd); hide(crate::vs::flag_rd); hide(crate::vs::ord_rd); hide(crate::vs::str_rd); hide(crate::vs::bytes_rd); hide(crate::vs::scalar_dec); hide(crate::vs::top_path); hide(crate::vs::settop); hide(crate::vs::body); hide(crate::vs::child); hide(crate::vs::popped); hide(crate::vs::gvs); hide(crate::vs::gvf); let ghost s0 = d.state.stack@; let ghost b0 = d.read.rest(); let ghost rel0 = d.read.reliable(); let ghost p = top_path(s0); proof { reveal(gv); axiom_stack(*d.state); lemma_idle(s0); if needs(s0) && !d.state.broken {
    lemma_at(s0, b0); lemma_body_is(top_schema(s0), b0); lemma_unread(p, b0); lemma_dec_leaf(p, b0); assert(b0.skip(0) =~= b0);
    match top_schema(s0) {
        Schema::Option(_) => { lemma_go_opt(s0); lemma_dec_opt(p, b0); },
        Schema::Enum(vs) => { lemma_dec_enum(p, b0); lemma_go_enum_all(s0); },
        Schema::Seq(q) => { lemma_body(p, b0); lemma_go_begin(Kind::Seq, s0, if let Some(n) = q.len { n } else { rd_val(len_rd(b0)) as usize }); },
        Schema::Tuple(ts) => { lemma_body(p, b0); lemma_go_begin(Kind::Tuple, s0, 0); vx::axiom_backed(ts); },
        Schema::Struct(fs) => { lemma_body(p, b0); lemma_go_begin(Kind::Struct, s0, 0); vx::axiom_backed(fs); },
        _ => {}
    } } }
@for N,K,Q,C in 0|Kind::Seq|gseq(elems@)|(top_schema(s0) matches Schema::Seq(q) && q.len is Some); 1|Kind::Seq|gseq(elems@)|(top_schema(s0) matches Schema::Seq(q) && q.len is None); 2|Kind::Tuple|gseq(elems@)|top_schema(s0) is Tuple
@loop $N
@inv : stable(s0) && needs(s0) && s0.len() <= isize::MAX && s0 == old(d).state.stack@ && !old(d).state.broken && b0 == old(d).read.rest() && rel0 == old(d).read.reliable() && p == top_path(s0)
@inv : $C && kind_fits($K, top_schema(s0)) && __i$N <= __n$N && arity(top_schema(s0), __n$N) == __n$N && body(top_schema(s0), b0) is Some && body(top_schema(s0), b0)->Some_0.0 == __n$N
@inv C11 : cinv(*d.state) && !d.state.broken
@inv : d.read.reliable() == rel0
@inv C08 : d.state.stack@ == settop(s0, elem_state($K, __n$N, __i$N as int)) && stable(d.state.stack@)
@inv C08 : $Q.len() == __i$N && (dec_seq($Q, $Q.len(), p, b0.skip(body(top_schema(s0), b0)->Some_0.1 as int)) matches Some(kk) && d.read.rest() == b0.skip(body(top_schema(s0), b0)->Some_0.1 as int).skip(kk as int))
@ldec __n$N - __i$N
@lbefore proof { lemma_gseq_push(Seq::empty(), arbitrary()); }
@lstart let ghost es0 = elems@; let ghost b2 = d.read.rest(); proof { assert(b2.skip(0) =~= b2); lemma_go_elem($K, __i$N as int, s0, __n$N, gseq(es0), b0); }
@lend proof { let v = elems@.last(); assert(elems@ == es0.push(v)); lemma_gseq_push(es0, v); lemma_dec_step(gseq(es0), gv(v), p, b0.skip(body(top_schema(s0), b0)->Some_0.1 as int)); }
@lafter proof { lemma_gv_elems(elems); lemma_body(p, b0); lemma_dec_end($Q, p, b0); lemma_go_end($K, s0, __n$N); }
@endfor
@loop 3
@inv : stable(s0) && needs(s0) && s0.len() <= isize::MAX && s0 == old(d).state.stack@ && !old(d).state.broken && b0 == old(d).read.rest() && rel0 == old(d).read.reliable() && p == top_path(s0)
@inv : top_schema(s0) matches Schema::Struct(fs) && fs@ == __s3@ && __i3 <= __s3@.len()
@inv C11 : cinv(*d.state) && !d.state.broken
@inv : d.read.reliable() == rel0
@inv C08 : d.state.stack@ == settop(s0, elem_state(Kind::Struct, 0, __i3 as int)) && stable(d.state.stack@)
@inv C08 : names_are(fields@, __s3@, __i3 as int)
@inv C08 : gseqf(fields@).len() == __i3 && (dec_seq(gseqf(fields@), gseqf(fields@).len(), p, b0) matches Some(kk) && d.read.rest() == b0.skip(kk as int))
@ldec __s3@.len() - __i3
@lbefore proof { lemma_gseqf_push(Seq::empty(), arbitrary()); }
@lstart let ghost es0 = fields@; let ghost b2 = d.read.rest(); proof { assert(b0.skip(0) =~= b0); assert(b2.skip(0) =~= b2); lemma_body_is(top_schema(s0), b0); lemma_go_elem(Kind::Struct, __i3 as int, s0, 0, gseqf(es0), b0); }
@lend proof { let v = fields@.last(); assert(fields@ == es0.push(v)); lemma_gseqf_push(es0, v); lemma_dec_step(gseqf(es0), gv(v.value), p, b0); }
@lafter proof { lemma_gv_fields(fields, __s3@); lemma_go_end(Kind::Struct, s0, 0); }
