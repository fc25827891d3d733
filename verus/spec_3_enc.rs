//@file C04,C05
// What the encoder and decoder do on top of the coder.
pub open spec fn then<'a>(t: Tr<'a>, f: spec_fn(Seq<StackFrame<'a>>) -> Tr<'a>) -> Tr<'a> {
    match t { Tr::Ok(x) => f(x), y => y }
}
pub open spec fn e_none<'a>(s: Seq<StackFrame<'a>>) -> Tr<'a> { then(t_begin_option(s), |x: Seq<StackFrame<'a>>| t_none(x)) }
pub open spec fn e_some<'a>(s: Seq<StackFrame<'a>>) -> Tr<'a> { then(t_begin_option(s), |x: Seq<StackFrame<'a>>| t_some(x)) }
pub open spec fn e_begin_var<'a>(s: Seq<StackFrame<'a>>, len: usize) -> Tr<'a> { then(t_begin_var(s), |x: Seq<StackFrame<'a>>| t_set_len(x, len)) }
pub open spec fn e_enum<'a>(s: Seq<StackFrame<'a>>, ord: usize, name: Seq<char>) -> Tr<'a> {
    then(t_begin_enum(s), |x: Seq<StackFrame<'a>>| then(t_ord(x, ord), |y: Seq<StackFrame<'a>>| t_name(y, name)))
}
/// the ordinal of a variant, of so many
pub open spec fn ord_enc(ord: nat, n: nat) -> Seq<u8> { le(ord, ord_len((n - 1) as nat)) }
pub open spec fn str_enc(s: Seq<char>) -> Seq<u8> { uint_enc(encode_utf8(s).len()) + encode_utf8(s) }
pub open spec fn bytes_enc(s: Seq<u8>) -> Seq<u8> { uint_enc(s.len()) + s }
/// variants of the enum that is needed
pub open spec fn nvars<'a>(s: Seq<StackFrame<'a>>) -> nat { top_schema(s)->Enum_0@.len() }

// ---- the invariant through calls made of several
pub proof fn lemma_stable_steps<'a>(s: Seq<StackFrame<'a>>)
    requires stable(s), s.len() < usize::MAX,
    ensures
        okstable(t_seq_elem(s)), okstable(t_finish_seq(s)), okstable(t_begin_tuple(s)), okstable(t_tuple_elem(s)), okstable(t_finish_tuple(s)),
        okstable(t_begin_struct(s)), okstable(t_finish_struct(s)), okstable(t_begin_enum(s)),
        forall|name: Seq<char>| #![trigger t_field(s, name)] okstable(t_field(s, name)),
        forall|name: Seq<char>| #![trigger t_name(s, name)] okstable(t_name(s, name)),
        forall|ord: usize| #![trigger t_ord(s, ord)] okstable(t_ord(s, ord)),
        forall|len: usize| #![trigger t_begin_fixed(s, len)] okstable(t_begin_fixed(s, len)),
        t_begin_var(s) matches Tr::Ok(t) ==> wfs(t) && t.len() > 0 && top_state(t) is SeqUninitLen && top_schema(t) is Seq && (forall|len: usize| okstable(#[trigger] t_set_len(t, len))),
{
    if s.len() > 0 {
        assert(s.last() == s[s.len() - 1]);
        assert(frame_ok(s.last()));
        lemma_popped(s);
        lemma_begins(s);
        if needs(s) {
            match top_schema(s) {
                Schema::Tuple(_) => lemma_settop(s, ApiState::Tuple { next: 0 }),
                Schema::Struct(_) => lemma_settop(s, ApiState::Struct { next: 0 }),
                Schema::Enum(_) => lemma_settop(s, ApiState::Enum { variant_ord: None }),
                Schema::Seq(q) => {
                    if let Some(len) = q.len { lemma_settop(s, ApiState::Seq { len, next: 0 }); }
                    else {
                        lemma_settop(s, ApiState::SeqUninitLen);
                        let t = settop(s, ApiState::SeqUninitLen);
                        assert forall|len: usize| okstable(#[trigger] t_set_len(t, len)) by { lemma_settop(t, ApiState::Seq { len, next: 0 }); }
                    }
                },
                _ => {}
            }
        }
        if top_state(s) is Enum {
            assert forall|ord: usize| #![trigger t_ord(s, ord)] okstable(t_ord(s, ord)) by {
                if ord < top_schema(s)->Enum_0@.len() { lemma_settop(s, ApiState::Enum { variant_ord: Some(ord) }); }
            }
        }
    }
}
pub proof fn lemma_option_ready<'a>(s: Seq<StackFrame<'a>>)
    requires stable(s), s.len() < usize::MAX,
    ensures t_begin_option(s) matches Tr::Ok(t) ==> wfs(t) && t.len() == s.len() && t.len() > 0 && top_state(t) is OptionUninitSomeness && top_schema(t) is Option
        && okstable(t_none(t)) && okstable(t_some(t)),
{
    if needs(s) && top_schema(s) is Option {
        assert(s.last() == s[s.len() - 1]);
        lemma_settop(s, ApiState::OptionUninitSomeness);
        let t = settop(s, ApiState::OptionUninitSomeness);
        lemma_popped(t);
        lemma_settop(t, ApiState::AutoFinish);
        lemma_pushed(settop(t, ApiState::AutoFinish), *top_schema(t)->Option_0);
    }
}
pub proof fn lemma_enum_ready<'a>(s: Seq<StackFrame<'a>>, ord: usize, name: Seq<char>)
    requires stable(s), s.len() < usize::MAX,
    ensures
        t_begin_enum(s) matches Tr::Ok(t) ==> stable(t) && t.len() == s.len() && top_state(t) is Enum && settop(t, ApiState::Need) == s && top_schema(t) == top_schema(s)
            && (t_ord(t, ord) matches Tr::Ok(u) ==> stable(u) && u.len() == s.len() && top_state(u) is Enum && settop(u, ApiState::Need) == s && okstable(t_name(u, name))),
{
    lemma_stable_steps(s);
    if let Tr::Ok(t) = t_begin_enum(s) {
        assert(s.last() == s[s.len() - 1]);
        lemma_stable_steps(t);
        assert(settop(t, ApiState::Need) =~= s);
        if let Tr::Ok(u) = t_ord(t, ord) {
            lemma_stable_steps(u);
            assert(settop(u, ApiState::Need) =~= s);
        }
    }
}

// ---- what a stream gives, by type
pub enum Rd<T> { Val(T, nat), Short, Malformed, Limit }
pub open spec fn rd<T>(d: Dec<T>) -> Rd<T> { match d { Dec::Val(x, k) => Rd::Val(x, k), Dec::Short => Rd::Short, Dec::Bad => Rd::Malformed } }
pub open spec fn le_rd(s: Seq<u8>, k: nat) -> Rd<nat> { if s.len() < k { Rd::Short } else { Rd::Val(le_val(s.take(k as int)), k) } }
pub open spec fn uint_rd(s: Seq<u8>, max: nat) -> Rd<nat> {
    match rd(uint_dec(s)) { Rd::Val(x, k) => if x <= max { Rd::Val(x, k) } else { Rd::Malformed }, d => d }
}
pub open spec fn sint_rd(s: Seq<u8>, min: int, max: int) -> Rd<int> {
    match rd(sint_dec(s)) { Rd::Val(x, k) => if min <= x <= max { Rd::Val(x, k) } else { Rd::Malformed }, d => d }
}
pub open spec fn char_rd(s: Seq<u8>) -> Rd<nat> {
    match rd(uint_dec(s)) { Rd::Val(x, k) => if is_scalar_value(x) { Rd::Val(x, k) } else { Rd::Malformed }, d => d }
}
pub open spec fn flag_rd(s: Seq<u8>) -> Rd<bool> {
    if s.len() < 1 { Rd::Short } else if s[0] == 0 { Rd::Val(false, 1) } else if s[0] == 1 { Rd::Val(true, 1) } else { Rd::Malformed }
}
pub open spec fn len_rd(s: Seq<u8>) -> Rd<nat> {
    match rd(uint_dec(s)) { Rd::Val(x, k) => if x <= usize::MAX { Rd::Val(x, k) } else { Rd::Limit }, d => d }
}
pub open spec fn bytes_rd(s: Seq<u8>) -> Rd<Seq<u8>> {
    match len_rd(s) {
        Rd::Val(n, k) => if s.len() < k + n { Rd::Short } else { Rd::Val(s.subrange(k as int, (k + n) as int), k + n) },
        Rd::Short => Rd::Short, Rd::Malformed => Rd::Malformed, Rd::Limit => Rd::Limit,
    }
}
pub open spec fn str_rd(s: Seq<u8>) -> Rd<Seq<u8>> {
    match bytes_rd(s) { Rd::Val(x, k) => if valid_utf8(x) { Rd::Val(x, k) } else { Rd::Malformed }, d => d }
}
pub open spec fn ord_rd(s: Seq<u8>, n: nat) -> Rd<nat> {
    if n == 0 { Rd::Malformed }
    else { match le_rd(s, ord_len((n - 1) as nat)) { Rd::Val(x, k) => if x < n { Rd::Val(x, k) } else { Rd::Malformed }, d => d } }
}
pub open spec fn unit_rd(s: Seq<u8>) -> Rd<()> { Rd::Val((), 0) }
pub open spec fn rd_is<T>(d: Rd<T>, x: T) -> bool { d matches Rd::Val(y, k) && x == y }
pub open spec fn rd_len<T>(d: Rd<T>) -> int { match d { Rd::Val(x, k) => k as int, _ => 0 } }
/// why the stream was refused
pub open spec fn rd_kind<T>(d: Rd<T>, e: crate::error::Error, reliable: bool) -> bool {
    e.kind == ErrorKind::Io && (!reliable || d is Short) || e.kind == ErrorKind::MalformedData && d is Malformed || e.kind == ErrorKind::PlatformLimits && d is Limit
}
pub open spec fn rd_val<T>(d: Rd<T>) -> T { d->Val_0 }
pub open spec fn e_ord<'a>(s: Seq<StackFrame<'a>>, ord: usize) -> Tr<'a> { then(t_begin_enum(s), |x: Seq<StackFrame<'a>>| t_ord(x, ord)) }
pub open spec fn e_ord_rd<'a>(s: Seq<StackFrame<'a>>, d: Rd<nat>) -> Tr<'a> { match d { Rd::Val(x, k) => e_ord(s, x as usize), _ => t_begin_enum(s) } }
pub proof fn lemma_enum_begin<'a>(s: Seq<StackFrame<'a>>)
    requires stable(s), s.len() < usize::MAX,
    ensures t_begin_enum(s) matches Tr::Ok(t) ==> stable(t) && t.len() == s.len() && top_state(t) is Enum && top_schema(t) == top_schema(s)
        && (forall|ord: usize| #![trigger t_ord(t, ord)] okstable(t_ord(t, ord)) && (ord < nvars(s) ==> t_ord(t, ord) is Ok)),
{
    lemma_stable_steps(s);
    if let Tr::Ok(t) = t_begin_enum(s) {
        assert(s.last() == s[s.len() - 1]);
        lemma_stable_steps(t);
    }
}
pub proof fn lemma_prefixed(s: Seq<u8>)
    ensures uint_dec(s) matches Dec::Val(x, k) ==> k <= s.len(), encode_utf8(Seq::<char>::empty()) == Seq::<u8>::empty(),
{
    lemma_uvar_used(s, 0, 128);
    reveal_with_fuel(encode_utf8, 2);
    assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
}
