//@file C12
// ======== serde: what a value does to a coder that serializes it
use crate::serde::ser::SeqLike as SerLike;
// A type which implements serde's Serialize is known to the verifier by what
// serializing one of its values does: the steps it takes a coder through and
// the bytes it writes, as a function of the state of the coder. What it must do
// with the errors of the coder (stop, and pass them on) is the contract of the
// trait, assumed of the types of the user.
pub trait Serialize {
    spec fn does<'a>(&self, s: Seq<StackFrame<'a>>) -> Run<'a>;
    fn serialize<'a, 'b, W: io::Write>(&self, e: &mut Encoder<'a, 'b, W>) -> (r: core::result::Result<(), crate::error::Error>)
        requires cinv(*old(e).state),
        ensures
            (*old(e)).state.broken ==> r is Err && (*final(e)).state.broken && *(*final(e)).write == *(*old(e)).write,
            !(*old(e)).state.broken && r is Ok ==> self.does((*old(e)).state.stack@).tr == Tr::Ok((*final(e)).state.stack@) && !(*final(e)).state.broken,
            !(*old(e)).state.broken && r is Ok ==> (*final(e)).write.written() == (*old(e)).write.written() + self.does((*old(e)).state.stack@).b,
            !(*old(e)).state.broken && self.does((*old(e)).state.stack@).tr is Ok && (*old(e)).write.reliable() ==> r is Ok,
            r is Err && fatal(r->Err_0) ==> (*final(e)).state.broken || at_recurse((*old(e)).state.stack@),
            !(*old(e)).state.broken && r is Err ==> ser_err(self.does((*old(e)).state.stack@).tr, (*old(e)).write.reliable(), r->Err_0),
            cinv(*(*final(e)).state),
            (*final(e)).write.reliable() == (*old(e)).write.reliable(),
    ;
}
/// where nothing at all can be coded (a root which is a recurse), and asking what is needed says so
pub open spec fn at_recurse<'a>(s: Seq<StackFrame<'a>>) -> bool { needs(s) && top_schema(s) is Recurse }
/// why it failed
pub open spec fn ser_err<'a>(t: Tr<'a>, reliable: bool, e: crate::error::Error) -> bool {
    (t matches Tr::Refuse(k) && e.kind == k) || (t is Break && e.kind == ErrorKind::IllegalSchema) || (e.kind == ErrorKind::Io && !reliable)
}
pub open spec fn r_of<'a>(tr: Tr<'a>, b: Seq<u8>) -> Run<'a> { Run { tr, b: if tr is Ok { b } else { Seq::empty() } } }
/// first the one, then the value
pub open spec fn after<'a, T: Serialize + ?Sized>(r: Run<'a>, v: &T) -> Run<'a> {
    match r.tr { Tr::Ok(t) => pre(r.b, v.does(t)), tr => Run { tr, b: Seq::empty() } }
}
pub open spec fn r_then<'a>(r: Run<'a>, f: spec_fn(Seq<StackFrame<'a>>) -> Run<'a>) -> Run<'a> {
    match r.tr { Tr::Ok(t) => pre(r.b, f(t)), tr => Run { tr, b: Seq::empty() } }
}
pub open spec fn r_enum<'a>(s: Seq<StackFrame<'a>>, i: u32, name: Seq<char>) -> Run<'a> { r_of(e_enum(s, i as usize, name), ord_enc(i as nat, nvars(s))) }
/// how a sequence of serde (seq, tuple, tuple struct) begins: as the schema says
pub open spec fn r_seq_like<'a>(s: Seq<StackFrame<'a>>, got: Option<usize>) -> Run<'a> {
    if !needs(s) { r_of(Tr::Refuse(ErrorKind::ApiUsage), Seq::empty()) }
    else {
        match top_schema(s) {
            Schema::Seq(q) => match (q.len, got) {
                (Some(n), Some(m)) => r_of(t_begin_fixed(s, m), Seq::empty()),
                (Some(n), None) => r_of(t_begin_fixed(s, n), Seq::empty()),
                (None, Some(m)) => r_of(e_begin_var(s, m), uint_enc(m as nat)),
                (None, None) => r_of(Tr::Refuse(ErrorKind::Other), Seq::empty()),
            },
            Schema::Tuple(_) => r_of(t_begin_tuple(s), Seq::empty()),
            Schema::Unit => r_of(t_code(s, Schema::Unit), Seq::empty()),
            Schema::Recurse(_) => r_of(Tr::Refuse(ErrorKind::IllegalSchema), Seq::empty()),
            _ => r_of(Tr::Refuse(ErrorKind::SchemaNonConformance), Seq::empty()),
        }
    }
}
pub open spec fn seq_like_as<'a>(s: Seq<StackFrame<'a>>) -> SerLike {
    match top_schema(s) { Schema::Seq(_) => SerLike::Seq, Schema::Tuple(_) => SerLike::Tuple, _ => SerLike::Unit }
}
pub open spec fn t_like_elem<'a>(k: SerLike, s: Seq<StackFrame<'a>>) -> Tr<'a> {
    match k { SerLike::Seq => t_seq_elem(s), SerLike::Tuple => t_tuple_elem(s), SerLike::Unit => Tr::Refuse(ErrorKind::Other) }
}
pub open spec fn t_like_end<'a>(k: SerLike, s: Seq<StackFrame<'a>>) -> Tr<'a> {
    match k { SerLike::Seq => t_finish_seq(s), SerLike::Tuple => t_finish_tuple(s), SerLike::Unit => Tr::Ok(s) }
}
pub open spec fn r_map<'a>(s: Seq<StackFrame<'a>>, len: Option<usize>) -> Run<'a> {
    match len { Some(n) => r_of(e_begin_var(s, n), uint_enc(n as nat)), None => r_of(Tr::Refuse(ErrorKind::Other), Seq::empty()) }
}
pub open spec fn t_key<'a>(s: Seq<StackFrame<'a>>) -> Tr<'a> {
    then(then(t_seq_elem(s), |x: Seq<StackFrame<'a>>| t_begin_tuple(x)), |x: Seq<StackFrame<'a>>| t_tuple_elem(x))
}
pub open spec fn r_ended<'a>(r: Run<'a>, k: Kind) -> Run<'a> { match r.tr { Tr::Ok(u) => r_of(t_finish(k, u), r.b), tr => Run { tr, b: Seq::empty() } } }
pub open spec fn r_unit_variant<'a>(s: Seq<StackFrame<'a>>, i: u32, name: Seq<char>) -> Run<'a> {
    r_then(r_enum(s, i, name), |t: Seq<StackFrame<'a>>| r_of(t_code(t, Schema::Unit), Seq::empty()))
}
pub open spec fn r_seq_variant<'a>(s: Seq<StackFrame<'a>>, i: u32, name: Seq<char>, n: usize) -> Run<'a> {
    r_then(r_enum(s, i, name), |t: Seq<StackFrame<'a>>| r_seq_like(t, Some(n)))
}
pub open spec fn r_struct_variant<'a>(s: Seq<StackFrame<'a>>, i: u32, name: Seq<char>) -> Run<'a> {
    r_then(r_enum(s, i, name), |t: Seq<StackFrame<'a>>| r_of(t_begin_struct(t), Seq::empty()))
}
pub open spec fn r_skip<'a>(s: Seq<StackFrame<'a>>, name: Seq<char>) -> Run<'a> {
    r_then(r_of(t_field(s, name), Seq::empty()), |t: Seq<StackFrame<'a>>| r_of(e_none(t), seq![0u8]))
}
