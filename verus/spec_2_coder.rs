//@file C04,C05,C10
// The coder: what its stack means and what every call does to it.
pub use crate::coder::coder::{StackFrame, ApiState, CoderState};
pub use crate::schema::{Schema, ScalarType, SeqSchema, StructSchemaField, EnumSchemaVariant};
pub use crate::error::ErrorKind;

// ---- equality of schemas (derived PartialEq; exact where one side is a leaf)
pub open spec fn leaf_schema(a: Schema) -> bool { a is Scalar || a is Str || a is Bytes || a is Unit }
pub uninterp spec fn schema_deep_eq(a: Schema, b: Schema) -> bool;
pub open spec fn schema_eq(a: Schema, b: Schema) -> bool {
    if leaf_schema(a) || leaf_schema(b) { a == b } else { schema_deep_eq(a, b) }
}
impl VxEq for Schema {
    open spec fn eqs(&self, b: &Schema) -> bool { schema_eq(*self, *b) }
    #[verifier::external_body]
    fn eqx(&self, b: &Schema) -> (r: bool) { unimplemented!() }
}
impl VxEq for ScalarType {
    open spec fn eqs(&self, b: &ScalarType) -> bool { *self == *b }
    #[verifier::external_body]
    fn eqx(&self, b: &ScalarType) -> (r: bool) { unimplemented!() }
}
impl VxEq for ErrorKind {
    open spec fn eqs(&self, b: &ErrorKind) -> bool { *self == *b }
    #[verifier::external_body]
    fn eqx(&self, b: &ErrorKind) -> (r: bool) { unimplemented!() }
}

// ---- the stack
pub open spec fn strip<'a>(s: Seq<StackFrame<'a>>) -> Seq<StackFrame<'a>>
    decreases s.len(),
{
    if s.len() > 0 && s.last().api_state is AutoFinish { strip(s.drop_last()) } else { s }
}
/// the stack once its top element is coded
pub open spec fn popped<'a>(s: Seq<StackFrame<'a>>) -> Seq<StackFrame<'a>> { strip(s.drop_last()) }

/// k steps up from stack index p in the schema tree
pub open spec fn up<'a>(s: Seq<StackFrame<'a>>, p: Option<usize>, k: nat) -> Option<usize>
    decreases k,
{
    if k == 0 { p } else { match p { None => None, Some(i) => up(s, s[i as int].parent, (k - 1) as nat) } }
}

pub open spec fn settop<'a>(s: Seq<StackFrame<'a>>, st: ApiState) -> Seq<StackFrame<'a>> {
    s.update(s.len() - 1, StackFrame { schema: s.last().schema, parent: s.last().parent, api_state: st })
}

/// What a call does: the new stack, a refusal which changes nothing, or an
/// illegal schema which breaks the coder.
pub enum Tr<'a> { Ok(Seq<StackFrame<'a>>), Refuse(ErrorKind), Break }

/// begin coding the child `c` of the top element
pub open spec fn pushed<'a>(s: Seq<StackFrame<'a>>, c: Schema) -> Tr<'a> {
    match c {
        Schema::Recurse(n) =>
            if n == 0 { Tr::Break }
            else {
                match up(s, Some((s.len() - 1) as usize), (n - 1) as nat) {
                    None => Tr::Break,
                    Some(i) => Tr::Ok(s.push(StackFrame { schema: s[i as int].schema, parent: s[i as int].parent, api_state: ApiState::Need })),
                }
            },
        _ => Tr::Ok(s.push(StackFrame { schema: &c, parent: Some((s.len() - 1) as usize), api_state: ApiState::Need })),
    }
}

pub open spec fn needs<'a>(s: Seq<StackFrame<'a>>) -> bool { s.len() > 0 && s.last().api_state is Need }
pub open spec fn top_schema<'a>(s: Seq<StackFrame<'a>>) -> Schema { *s.last().schema }
pub open spec fn top_state<'a>(s: Seq<StackFrame<'a>>) -> ApiState { s.last().api_state }

/// a call that does not fit the state
pub open spec fn refusal<'a>(s: Seq<StackFrame<'a>>) -> Tr<'a> {
    if needs(s) {
        if top_schema(s) is Recurse { Tr::Break } else { Tr::Refuse(ErrorKind::SchemaNonConformance) }
    } else { Tr::Refuse(ErrorKind::ApiUsage) }
}

pub open spec fn t_code<'a>(s: Seq<StackFrame<'a>>, sch: Schema) -> Tr<'a> {
    if needs(s) && top_schema(s) == sch { Tr::Ok(popped(s)) } else { refusal(s) }
}
pub open spec fn t_begin_option<'a>(s: Seq<StackFrame<'a>>) -> Tr<'a> {
    if needs(s) && top_schema(s) is Option { Tr::Ok(settop(s, ApiState::OptionUninitSomeness)) } else { refusal(s) }
}
pub open spec fn t_none<'a>(s: Seq<StackFrame<'a>>) -> Tr<'a> { Tr::Ok(popped(s)) }
pub open spec fn t_some<'a>(s: Seq<StackFrame<'a>>) -> Tr<'a> {
    pushed(settop(s, ApiState::AutoFinish), *top_schema(s)->Option_0)
}
pub open spec fn t_begin_fixed<'a>(s: Seq<StackFrame<'a>>, len: usize) -> Tr<'a> {
    if needs(s) && top_schema(s) is Seq && top_schema(s)->Seq_0.len is Some {
        if top_schema(s)->Seq_0.len == Some(len) { Tr::Ok(settop(s, ApiState::Seq { len, next: 0 })) }
        else { Tr::Refuse(ErrorKind::SchemaNonConformance) }
    } else { refusal(s) }
}
pub open spec fn t_begin_var<'a>(s: Seq<StackFrame<'a>>) -> Tr<'a> {
    if needs(s) && top_schema(s) is Seq && top_schema(s)->Seq_0.len is None { Tr::Ok(settop(s, ApiState::SeqUninitLen)) } else { refusal(s) }
}
pub open spec fn t_set_len<'a>(s: Seq<StackFrame<'a>>, len: usize) -> Tr<'a> { Tr::Ok(settop(s, ApiState::Seq { len, next: 0 })) }
pub open spec fn t_seq_elem<'a>(s: Seq<StackFrame<'a>>) -> Tr<'a> {
    if s.len() > 0 && top_state(s) is Seq {
        let (len, next) = (top_state(s)->Seq_len, top_state(s)->Seq_next);
        if next < len { pushed(settop(s, ApiState::Seq { len, next: (next + 1) as usize }), *top_schema(s)->Seq_0.inner) }
        else { Tr::Refuse(ErrorKind::ApiUsage) }
    } else { refusal(s) }
}
pub open spec fn t_finish_seq<'a>(s: Seq<StackFrame<'a>>) -> Tr<'a> {
    if s.len() > 0 && top_state(s) is Seq {
        if top_state(s)->Seq_next == top_state(s)->Seq_len { Tr::Ok(popped(s)) } else { Tr::Refuse(ErrorKind::ApiUsage) }
    } else { refusal(s) }
}
pub open spec fn t_begin_tuple<'a>(s: Seq<StackFrame<'a>>) -> Tr<'a> {
    if needs(s) && top_schema(s) is Tuple { Tr::Ok(settop(s, ApiState::Tuple { next: 0 })) } else { refusal(s) }
}
pub open spec fn t_tuple_elem<'a>(s: Seq<StackFrame<'a>>) -> Tr<'a> {
    if s.len() > 0 && top_state(s) is Tuple {
        let next = top_state(s)->Tuple_next;
        let ts = top_schema(s)->Tuple_0@;
        if next < ts.len() { pushed(settop(s, ApiState::Tuple { next: (next + 1) as usize }), ts[next as int]) }
        else { Tr::Refuse(ErrorKind::SchemaNonConformance) }
    } else { refusal(s) }
}
pub open spec fn t_finish_tuple<'a>(s: Seq<StackFrame<'a>>) -> Tr<'a> {
    if s.len() > 0 && top_state(s) is Tuple {
        if top_state(s)->Tuple_next == top_schema(s)->Tuple_0@.len() { Tr::Ok(popped(s)) } else { Tr::Refuse(ErrorKind::SchemaNonConformance) }
    } else { refusal(s) }
}
pub open spec fn t_begin_struct<'a>(s: Seq<StackFrame<'a>>) -> Tr<'a> {
    if needs(s) && top_schema(s) is Struct { Tr::Ok(settop(s, ApiState::Struct { next: 0 })) } else { refusal(s) }
}
pub open spec fn t_field<'a>(s: Seq<StackFrame<'a>>, name: Seq<char>) -> Tr<'a> {
    if s.len() > 0 && top_state(s) is Struct {
        let next = top_state(s)->Struct_next;
        let fs = top_schema(s)->Struct_0@;
        if next < fs.len() && fs[next as int].name@ == name { pushed(settop(s, ApiState::Struct { next: (next + 1) as usize }), fs[next as int].inner) }
        else { Tr::Refuse(ErrorKind::SchemaNonConformance) }
    } else { refusal(s) }
}
pub open spec fn t_finish_struct<'a>(s: Seq<StackFrame<'a>>) -> Tr<'a> {
    if s.len() > 0 && top_state(s) is Struct {
        if top_state(s)->Struct_next == top_schema(s)->Struct_0@.len() { Tr::Ok(popped(s)) } else { Tr::Refuse(ErrorKind::SchemaNonConformance) }
    } else { refusal(s) }
}
pub open spec fn t_begin_enum<'a>(s: Seq<StackFrame<'a>>) -> Tr<'a> {
    if needs(s) && top_schema(s) is Enum { Tr::Ok(settop(s, ApiState::Enum { variant_ord: None })) } else { refusal(s) }
}
pub open spec fn t_ord<'a>(s: Seq<StackFrame<'a>>, ord: usize) -> Tr<'a> {
    if s.len() > 0 && top_state(s) is Enum && top_state(s)->Enum_variant_ord is None {
        if ord < top_schema(s)->Enum_0@.len() { Tr::Ok(settop(s, ApiState::Enum { variant_ord: Some(ord) })) }
        else { Tr::Refuse(ErrorKind::SchemaNonConformance) }
    } else { refusal(s) }
}
pub open spec fn t_name<'a>(s: Seq<StackFrame<'a>>, name: Seq<char>) -> Tr<'a> {
    if s.len() > 0 && top_state(s) is Enum && top_state(s)->Enum_variant_ord is Some {
        let v = top_schema(s)->Enum_0@[top_state(s)->Enum_variant_ord->Some_0 as int];
        if v.name@ == name { pushed(settop(s, ApiState::AutoFinish), v.inner) }
        else { Tr::Refuse(ErrorKind::SchemaNonConformance) }
    } else { refusal(s) }
}

// ---- invariants
pub open spec fn frame_ok<'a>(f: StackFrame<'a>) -> bool {
    match f.api_state {
        ApiState::Need => true,
        ApiState::AutoFinish => *f.schema is Option || *f.schema is Enum,
        ApiState::OptionUninitSomeness => *f.schema is Option,
        ApiState::SeqUninitLen => *f.schema is Seq && (*f.schema)->Seq_0.len is None,
        ApiState::Seq { len, next } => *f.schema is Seq && next <= len && ((*f.schema)->Seq_0.len matches Some(k) ==> k == len),
        ApiState::Tuple { next } => *f.schema is Tuple && next <= (*f.schema)->Tuple_0@.len(),
        ApiState::Struct { next } => *f.schema is Struct && next <= (*f.schema)->Struct_0@.len(),
        ApiState::Enum { variant_ord } => *f.schema is Enum && (variant_ord matches Some(o) ==> o < (*f.schema)->Enum_0@.len()),
    }
}
/// a frame that something is being coded inside of
pub open spec fn outer_ok<'a>(f: StackFrame<'a>) -> bool {
    f.api_state is AutoFinish || f.api_state is Seq || f.api_state is Tuple || f.api_state is Struct
}
pub open spec fn parents_ok<'a>(s: Seq<StackFrame<'a>>) -> bool {
    forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> (s[i].parent matches Some(p) ==> p < i)
}
/// well-formed, but for what the top element is doing
pub open spec fn wfx<'a>(s: Seq<StackFrame<'a>>) -> bool {
    &&& s.len() <= usize::MAX
    &&& parents_ok(s)
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> frame_ok(s[i]) && (s[i].api_state is Need && *s[i].schema is Recurse ==> s.len() == 1)
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() - 1 ==> outer_ok(s[i])
}
pub open spec fn wfs<'a>(s: Seq<StackFrame<'a>>) -> bool {
    wfx(s) && (s.len() > 0 ==> !(s.last().api_state is AutoFinish))
}
/// between calls
pub open spec fn stable<'a>(s: Seq<StackFrame<'a>>) -> bool {
    wfs(s) && (s.len() > 0 ==> !(s.last().api_state is OptionUninitSomeness) && !(s.last().api_state is SeqUninitLen))
}
pub open spec fn cinv<'a>(c: CoderState<'a>) -> bool { c.broken || stable(c.stack@) }
/// no object is larger than half the address space, and a frame takes bytes
#[verifier::external_body]
pub proof fn axiom_stack<'a>(c: CoderState<'a>)
    ensures c.stack@.len() <= isize::MAX,
{}
pub open spec fn is_kind(e: crate::error::Error, k: ErrorKind) -> bool { e.kind == k }
pub open spec fn mild(e: crate::error::Error) -> bool { e.kind == ErrorKind::ApiUsage || e.kind == ErrorKind::SchemaNonConformance }
pub open spec fn fatal(e: crate::error::Error) -> bool {
    e.kind == ErrorKind::Io || e.kind == ErrorKind::MalformedData || e.kind == ErrorKind::PlatformLimits || e.kind == ErrorKind::IllegalSchema
}

// ---- the invariants are kept
pub proof fn lemma_strip<'a>(s: Seq<StackFrame<'a>>)
    requires wfx(s),
    ensures wfs(strip(s)), strip(s).len() <= s.len(), strip(s) == s.take(strip(s).len() as int),
        forall|i: int| strip(s).len() <= i < s.len() ==> (#[trigger] s[i]).api_state is AutoFinish,
        s.len() > 0 && (outer_ok(s.last())) ==> stable(strip(s)),
        s.len() == 0 ==> stable(strip(s)),
    decreases s.len(),
{
    if s.len() > 0 && s.last().api_state is AutoFinish {
        let d = s.drop_last();
        assert(wfx(d)) by {
            assert forall|i: int| 0 <= i < d.len() implies d[i] == s[i] by {}
        }
        if d.len() > 0 { assert(outer_ok(s[d.len() - 1])); assert(d.last() == s[d.len() - 1]); }
        lemma_strip(d);
        assert(strip(s) =~= s.take(strip(s).len() as int));
        assert forall|i: int| strip(s).len() <= i < s.len() implies (#[trigger] s[i]).api_state is AutoFinish by {
            if i < d.len() { assert(d[i].api_state is AutoFinish); }
        }
    } else {
        assert(strip(s) =~= s.take(s.len() as int));
    }
}
pub proof fn lemma_popped<'a>(s: Seq<StackFrame<'a>>)
    requires wfx(s), s.len() > 0,
    ensures stable(popped(s)),
{
    let d = s.drop_last();
    assert(wfx(d)) by {
        assert forall|i: int| 0 <= i < d.len() implies d[i] == s[i] && outer_ok(d[i]) by {}
        assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() implies frame_ok(d[i]) && !(d[i].api_state is Need) by { assert(d[i] == s[i]); assert(outer_ok(s[i])); }
    }
    if d.len() > 0 { assert(outer_ok(s[d.len() - 1])); assert(d.last() == s[d.len() - 1]); }
    lemma_strip(d);
}
pub proof fn lemma_settop<'a>(s: Seq<StackFrame<'a>>, st: ApiState)
    requires wfx(s), s.len() > 0, frame_ok(StackFrame { schema: s.last().schema, parent: s.last().parent, api_state: st }),
        !(st is Need),
    ensures wfx(settop(s, st)), settop(s, st).last().api_state == st, settop(s, st).last().schema == s.last().schema,
        settop(s, st).len() == s.len(),
        settop(s, st).drop_last() == s.drop_last(),
{
    let t = settop(s, st);
    assert forall|i: int| 0 <= i < s.len() - 1 implies t[i] == s[i] by {}
    assert(s.last() == s[s.len() - 1]);
    assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies frame_ok(t[i]) && (t[i].api_state is Need && *t[i].schema is Recurse ==> t.len() == 1) && (t[i].parent matches Some(p) ==> p < i) by {
        if i < s.len() - 1 { assert(t[i] == s[i]); }
    }
    assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() - 1 implies outer_ok(t[i]) by { assert(t[i] == s[i]); }
    assert(t.drop_last() =~= s.drop_last());
}
/// back to needing it
pub proof fn lemma_setneed<'a>(s: Seq<StackFrame<'a>>)
    requires wfx(s), s.len() > 0, !(*s.last().schema is Recurse),
    ensures stable(settop(s, ApiState::Need)), 
{
    let t = settop(s, ApiState::Need);
    assert forall|i: int| 0 <= i < s.len() - 1 implies t[i] == s[i] by {}
    assert(s.last() == s[s.len() - 1]);
    assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies frame_ok(t[i]) && (t[i].api_state is Need && *t[i].schema is Recurse ==> t.len() == 1) && (t[i].parent matches Some(p) ==> p < i) by {
        if i < s.len() - 1 { assert(t[i] == s[i]); }
    }
    assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() - 1 implies outer_ok(t[i]) by { assert(t[i] == s[i]); }
}
pub proof fn lemma_up<'a>(s: Seq<StackFrame<'a>>, p: Option<usize>, k: nat)
    requires parents_ok(s), p matches Some(i) ==> i < s.len(),
    ensures up(s, p, k) matches Some(j) ==> j < s.len() && (p matches Some(i) && j <= i),
    decreases k,
{
    if k > 0 { if let Some(i) = p { assert(s[i as int] == s[i as int]); lemma_up(s, s[i as int].parent, (k - 1) as nat); } }
}
pub proof fn lemma_pushed<'a>(s: Seq<StackFrame<'a>>, c: Schema)
    requires wfx(s), s.len() > 0, s.len() < usize::MAX, outer_ok(s.last()),
    ensures pushed(s, c) matches Tr::Ok(t) ==> stable(t) && t.len() == s.len() + 1 && t.last().api_state is Need && !(*t.last().schema is Recurse),
{
    if let Tr::Ok(t) = pushed(s, c) {
        assert(s.last() == s[s.len() - 1]);
        assert forall|i: int| 0 <= i < s.len() implies t[i] == s[i] by {}
        if let Schema::Recurse(n) = c { lemma_up(s, Some((s.len() - 1) as usize), (n - 1) as nat);
            let j = up(s, Some((s.len() - 1) as usize), (n - 1) as nat)->Some_0 as int;
            assert(frame_ok(s[j]));
            if j < s.len() - 1 { assert(outer_ok(s[j])); }
            assert(t.last() == t[t.len() - 1]);
        }
        assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies frame_ok(t[i]) && (t[i].api_state is Need && *t[i].schema is Recurse ==> t.len() == 1) && (t[i].parent matches Some(p) ==> p < i) by {
            if i < s.len() { assert(t[i] == s[i]); if i < s.len() - 1 { assert(outer_ok(s[i])); } }
        }
        assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() - 1 implies outer_ok(t[i]) by { assert(t[i] == s[i]); if i < s.len() - 1 { assert(outer_ok(s[i])); } }
    }
}

// ---- sequences as the top element is written to
pub broadcast proof fn upd_same<A>(s: Seq<A>, i: int, x: A)
    ensures 0 <= i < s.len() && x == s[i] ==> #[trigger] s.update(i, x) == s,
{ if 0 <= i < s.len() && x == s[i] { assert(s.update(i, x) =~= s); } }
pub broadcast proof fn upd_upd<A>(s: Seq<A>, i: int, x: A, y: A)
    ensures 0 <= i < s.len() ==> #[trigger] s.update(i, x).update(i, y) == s.update(i, y),
{ if 0 <= i < s.len() { assert(s.update(i, x).update(i, y) =~= s.update(i, y)); } }
pub broadcast proof fn upd_drop<A>(s: Seq<A>, i: int, x: A)
    ensures 0 <= i && i == s.len() - 1 ==> #[trigger] s.update(i, x).drop_last() == s.drop_last(),
{ if 0 <= i && i == s.len() - 1 { assert(s.update(i, x).drop_last() =~= s.drop_last()); } }
pub broadcast proof fn skip_take<A>(s: Seq<A>, a: int, b: int)
    ensures 0 <= a && 0 <= b && a + b <= s.len() ==> #[trigger] s.skip(a).take(b) == s.subrange(a, a + b),
{ if 0 <= a && 0 <= b && a + b <= s.len() { assert(s.skip(a).take(b) =~= s.subrange(a, a + b)); } }
pub broadcast proof fn skip_skip<A>(s: Seq<A>, a: int, b: int)
    ensures 0 <= a && 0 <= b && a + b <= s.len() ==> #[trigger] s.skip(a).skip(b) == s.skip(a + b),
{ if 0 <= a && 0 <= b && a + b <= s.len() { assert(s.skip(a).skip(b) =~= s.skip(a + b)); } }
pub broadcast proof fn empty_add<A>(a: Seq<A>, b: Seq<A>)
    ensures a.len() == 0 ==> #[trigger] (a + b) == b,
{ if a.len() == 0 { assert(a + b =~= b); } }
pub broadcast proof fn add_empty<A>(a: Seq<A>, b: Seq<A>)
    ensures b.len() == 0 ==> #[trigger] (a + b) == a,
{ if b.len() == 0 { assert(a + b =~= a); } }
pub broadcast group group_stack { upd_same, upd_upd, upd_drop, skip_take, skip_skip, empty_add, add_empty }


// ---- calls that begin an inner element
pub open spec fn okstable<'a>(t: Tr<'a>) -> bool { t matches Tr::Ok(x) ==> stable(x) }
pub proof fn lemma_begins<'a>(s: Seq<StackFrame<'a>>)
    requires stable(s), s.len() > 0, s.len() < usize::MAX,
    ensures
        top_state(s) is Seq && top_state(s)->Seq_next < top_state(s)->Seq_len ==>
            wfx(settop(s, ApiState::Seq { len: top_state(s)->Seq_len, next: (top_state(s)->Seq_next + 1) as usize })) && okstable(t_seq_elem(s)),
        top_state(s) is Tuple && top_state(s)->Tuple_next < top_schema(s)->Tuple_0@.len() ==> top_state(s)->Tuple_next < usize::MAX
            && wfx(settop(s, ApiState::Tuple { next: (top_state(s)->Tuple_next + 1) as usize })) && okstable(t_tuple_elem(s)),
        top_state(s) is Struct && top_state(s)->Struct_next < top_schema(s)->Struct_0@.len() ==> top_state(s)->Struct_next < usize::MAX
            && wfx(settop(s, ApiState::Struct { next: (top_state(s)->Struct_next + 1) as usize })),
        forall|name: Seq<char>| #![trigger t_field(s, name)] okstable(t_field(s, name)),
        top_state(s) is Enum ==> wfx(settop(s, ApiState::AutoFinish)),
        forall|name: Seq<char>| #![trigger t_name(s, name)] okstable(t_name(s, name)),
{
    let s0 = s;
    assert(s.last() == s[s.len() - 1]);
    assert(frame_ok(s.last()));
    match top_state(s) {
        ApiState::Seq { len, next } => if next < len {
            let st = ApiState::Seq { len, next: (next + 1) as usize };
            lemma_settop(s, st); lemma_pushed(settop(s, st), *top_schema(s)->Seq_0.inner);
        },
        ApiState::Tuple { next } => {
            assert(top_schema(s)->Tuple_0.len() <= usize::MAX);
            if next < top_schema(s)->Tuple_0@.len() {
                let st = ApiState::Tuple { next: (next + 1) as usize };
                lemma_settop(s, st); lemma_pushed(settop(s, st), top_schema(s)->Tuple_0@[next as int]);
            }
        },
        ApiState::Struct { next } => {
            assert(top_schema(s)->Struct_0.len() <= usize::MAX);
            if next < top_schema(s)->Struct_0@.len() {
                let st = ApiState::Struct { next: (next + 1) as usize };
                lemma_settop(s, st); lemma_pushed(settop(s, st), top_schema(s)->Struct_0@[next as int].inner);
            }
        },
        ApiState::Enum { variant_ord } => {
            let st = ApiState::AutoFinish;
            lemma_settop(s, st);
            if let Some(o) = variant_ord { lemma_pushed(settop(s, st), top_schema(s)->Enum_0@[o as int].inner); }
        },
        _ => {}
    }
}
