//@file C08,C04,C09,C10
// A value is coded to the end exactly when it conforms to the schema as
// FORMAT.txt says, and its bytes are those that FORMAT.txt says.

/// the schemas from the root of the schema tree down to a stack frame
pub open spec fn path<'a>(s: Seq<StackFrame<'a>>, p: Option<usize>) -> Seq<Schema>
    decreases (match p { None => 0int, Some(i) => i + 1 }),
{
    match p {
        None => Seq::empty(),
        Some(i) => if i < s.len() && (s[i as int].parent matches Some(j) ==> j < i) { path(s, s[i as int].parent).push(*s[i as int].schema) } else { Seq::empty() },
    }
}
pub open spec fn top_path<'a>(s: Seq<StackFrame<'a>>) -> Seq<Schema> { path(s, Some((s.len() - 1) as usize)) }
/// paths do not depend on what frames do, nor on later frames
pub proof fn lemma_path_same<'a>(s: Seq<StackFrame<'a>>, t: Seq<StackFrame<'a>>, p: Option<usize>)
    requires p matches Some(i) ==> i < s.len() && i < t.len() && parents_ok(s) && forall|k: int| 0 <= k <= i ==> (#[trigger] s[k]).schema == t[k].schema && s[k].parent == t[k].parent,
    ensures path(s, p) == path(t, p),
    decreases (match p { None => 0int, Some(i) => i + 1 }),
{
    if let Some(i) = p {
        assert(s[i as int].schema == t[i as int].schema && s[i as int].parent == t[i as int].parent);
        lemma_path_same(s, t, s[i as int].parent);
    }
}
pub proof fn lemma_path_up<'a>(s: Seq<StackFrame<'a>>, p: Option<usize>, k: nat)
    requires parents_ok(s), p matches Some(i) ==> i < s.len(),
    ensures up(s, p, k) is Some <==> k < path(s, p).len(),
        up(s, p, k) matches Some(j) ==> j < s.len() && path(s, Some(j)) == path(s, p).take(path(s, p).len() - k),
    decreases k,
{
    match p {
        None => {},
        Some(i) => {
            assert(s[i as int].parent matches Some(j) ==> j < i);
            let q = path(s, s[i as int].parent);
            assert(path(s, p) == q.push(*s[i as int].schema));
            if k > 0 {
                lemma_path_up(s, s[i as int].parent, (k - 1) as nat);
                if k - 1 < q.len() { assert(q.take(q.len() - (k - 1)) =~= path(s, p).take(path(s, p).len() - k)); }
            } else { assert(path(s, p).take(path(s, p).len() as int) =~= path(s, p)); }
        }
    }
}
/// beginning a child goes to where FORMAT.txt says
pub proof fn lemma_push_child<'a>(s: Seq<StackFrame<'a>>, c: Schema)
    requires wfx(s), s.len() > 0, s.len() < usize::MAX,
    ensures
        top_path(s).len() > 0, top_path(s).last() == top_schema(s),
        pushed(s, c) is Ok <==> child(top_path(s), c) is Some,
        pushed(s, c) matches Tr::Ok(t) ==> t.len() == s.len() + 1 && t.drop_last() == s && top_path(t) == child(top_path(s), c)->Some_0 && needs(t),
        !(pushed(s, c) is Ok) ==> pushed(s, c) is Break,
{
    let top = (s.len() - 1) as usize;
    assert(s[top as int].parent matches Some(j) ==> j < top);
    assert(s.last() == s[s.len() - 1]);
    match c {
        Schema::Recurse(n) => if n > 0 {
            lemma_path_up(s, Some(top), (n - 1) as nat);
            if let Some(j) = up(s, Some(top), (n - 1) as nat) {
                let f = StackFrame { schema: s[j as int].schema, parent: s[j as int].parent, api_state: ApiState::Need };
                let t = s.push(f);
                assert(t.drop_last() =~= s);
                assert(s[j as int].parent matches Some(q) ==> q < j);
                if let Some(q) = f.parent { assert(forall|k: int| 0 <= k <= q ==> s[k] == t[k]); lemma_path_same(s, t, f.parent); }
                assert(t[t.len() - 1] == f && t.last() == f);
                assert(pushed(s, c) == Tr::Ok(t));
                assert(path(t, f.parent) == path(s, f.parent));
                assert(top_path(t) == path(t, f.parent).push(*f.schema));
                assert(path(s, Some(j)) == path(s, f.parent).push(*f.schema));
                assert(top_path(t) == path(s, Some(j)));
                assert(child(top_path(s), c) == Some(top_path(s).take(top_path(s).len() - n + 1)));
            }
        },
        _ => {
            let f = StackFrame { schema: &c, parent: Some(top), api_state: ApiState::Need };
            let t = s.push(f);
            assert(t.drop_last() =~= s);
            assert(pushed(s, c) == Tr::Ok(t));
            assert(forall|k: int| 0 <= k <= top ==> s[k] == t[k]);
            lemma_path_same(s, t, Some(top));
            assert(t[t.len() - 1] == f && t.last() == f);
            assert(top_path(t) == path(t, f.parent).push(*f.schema));
            assert(top_path(t) == top_path(s).push(c));
        }
    }
}
pub proof fn lemma_settop_path<'a>(s: Seq<StackFrame<'a>>, st: ApiState)
    requires wfx(s), 0 < s.len(),
    ensures top_path(settop(s, st)) == top_path(s), top_schema(settop(s, st)) == top_schema(s),
{
    let t = settop(s, st);
    assert(s.last() == s[s.len() - 1]);
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).schema == t[k].schema && s[k].parent == t[k].parent by {}
    lemma_path_same(s, t, Some((s.len() - 1) as usize));
}

// ---- how deep a value is
pub open spec fn depth(g: GV) -> nat
    decreases g, 0nat,
{
    match g {
        GV::Some(x) => 1 + depth(*x),
        GV::Enum(o, n, x) => 1 + depth(*x),
        GV::FixedSeq(es) => 1 + depths(es, es.len()),
        GV::VarSeq(es) => 1 + depths(es, es.len()),
        GV::Tuple(es) => 1 + depths(es, es.len()),
        GV::Struct(ns, es) => 1 + depths(es, es.len()),
        _ => 1,
    }
}
pub open spec fn depths(es: Seq<GV>, n: nat) -> nat
    decreases es, n,
{
    if n == 0 || n > es.len() { 0 } else { let d = depth(es[n - 1]); let e = depths(es, (n - 1) as nat); if d > e { d } else { e } }
}

// ---- elements
pub open spec fn elem_state(k: Kind, len: usize, n: int) -> ApiState {
    match k { Kind::Seq => ApiState::Seq { len, next: n as usize }, Kind::Tuple => ApiState::Tuple { next: n as usize }, Kind::Struct => ApiState::Struct { next: n as usize } }
}
pub open spec fn kind_fits(k: Kind, s: Schema) -> bool { match k { Kind::Seq => s is Seq, Kind::Tuple => s is Tuple, Kind::Struct => s is Struct } }
pub open spec fn arity(s: Schema, len: usize) -> int { match s { Schema::Tuple(ts) => ts@.len() as int, Schema::Struct(fs) => fs@.len() as int, _ => len as int } }
pub open spec fn elem_conf(k: Kind, ns: Seq<Seq<char>>, es: Seq<GV>, i: int, p: Seq<Schema>, len: usize) -> bool {
    &&& i < arity(p.last(), len)
    &&& k is Struct ==> ns[i] == p.last()->Struct_0@[i].name@
    &&& child(p, nth(p.last(), i)) matches Some(q) && conf(es[i], q)
}
pub open spec fn all_conf(k: Kind, ns: Seq<Seq<char>>, es: Seq<GV>, n: int, p: Seq<Schema>, len: usize) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] elem_conf(k, ns, es, i, p, len)
}
/// what the coder does for a value, and what FORMAT.txt says of it
pub open spec fn run_fits<'a>(g: GV, s: Seq<StackFrame<'a>>) -> bool {
    &&& conf(g, top_path(s)) ==> run(g, s) == (Run { tr: Tr::Ok(popped(s)), b: enc(g, top_path(s)) })
    &&& !conf(g, top_path(s)) ==> !(run(g, s).tr is Ok)
}
pub proof fn lemma_elem<'a>(k: Kind, name: Seq<char>, n: int, s: Seq<StackFrame<'a>>, len: usize)
    requires stable(s), s.len() > 0, s.len() < usize::MAX, kind_fits(k, top_schema(s)), top_state(s) == elem_state(k, len, n), 0 <= n <= arity(top_schema(s), len),
    ensures
        t_elem(k, name, s) is Ok <==> n < arity(top_schema(s), len) && (k is Struct ==> name == top_schema(s)->Struct_0@[n].name@) && child(top_path(s), nth(top_schema(s), n)) is Some,
        n < arity(top_schema(s), len) && (k is Struct ==> name == top_schema(s)->Struct_0@[n].name@) ==> !(t_elem(k, name, s) is Refuse),
        t_elem(k, name, s) matches Tr::Ok(t) ==> stable(t) && needs(t) && t.len() == s.len() + 1 && top_path(t) == child(top_path(s), nth(top_schema(s), n))->Some_0
            && stable(settop(s, elem_state(k, len, n + 1))) && popped(t) == settop(s, elem_state(k, len, n + 1)),
{
    assert(s.last() == s[s.len() - 1]);
    lemma_begins(s);
    if k is Tuple { assert(top_schema(s)->Tuple_0.len() <= usize::MAX); }
    if k is Struct { assert(top_schema(s)->Struct_0.len() <= usize::MAX); }
    if n < arity(top_schema(s), len) {
        let s1 = settop(s, elem_state(k, len, n + 1));
        lemma_settop_path(s, elem_state(k, len, n + 1));
        lemma_settop(s, elem_state(k, len, n + 1));
        lemma_push_child(s1, nth(top_schema(s), n));
        assert(s1.last() == s1[s1.len() - 1]);
        if let Tr::Ok(t) = pushed(s1, nth(top_schema(s), n)) {
            assert(strip(s1) == s1);
            assert(stable(s1));
        }
    }
}
pub proof fn lemma_all_less(k: Kind, ns: Seq<Seq<char>>, es: Seq<GV>, m: int, n: int, p: Seq<Schema>, len: usize)
    requires all_conf(k, ns, es, n, p, len), m <= n,
    ensures all_conf(k, ns, es, m, p, len),
{}
pub proof fn lemma_seq_fits<'a>(k: Kind, ns: Seq<Seq<char>>, es: Seq<GV>, n: nat, s: Seq<StackFrame<'a>>, len: usize)
    requires stable(s), s.len() > 0, s.len() + 1 + depths(es, n) < usize::MAX, kind_fits(k, top_schema(s)), top_state(s) == elem_state(k, len, 0), n <= es.len(),
    ensures
        all_conf(k, ns, es, n as int, top_path(s), len) ==> n <= arity(top_schema(s), len) && run_seq(k, ns, es, n, s) == (Run { tr: Tr::Ok(settop(s, elem_state(k, len, n as int))), b: enc_seq(es, n, top_path(s)) })
            && stable(settop(s, elem_state(k, len, n as int))),
        !all_conf(k, ns, es, n as int, top_path(s), len) ==> !(run_seq(k, ns, es, n, s).tr is Ok),
    decreases es, n,
{
    reveal_with_fuel(run_seq, 2); reveal_with_fuel(depths, 2); reveal(run); reveal_with_fuel(enc_seq, 2);
    let p = top_path(s);
    assert(s.last() == s[s.len() - 1]);
    assert(s[s.len() - 1].parent matches Some(j) ==> j < s.len() - 1);
    assert(p.last() == top_schema(s));
    if n == 0 {
        assert(settop(s, elem_state(k, len, 0)) =~= s);
    } else {
        let m = (n - 1) as nat;
        lemma_seq_fits(k, ns, es, m, s, len);
        let x = es[m as int];
        if all_conf(k, ns, es, m as int, p, len) {
            let t = settop(s, elem_state(k, len, m as int));
            lemma_settop_path(s, elem_state(k, len, m as int));
            assert(top_state(t) == elem_state(k, len, m as int));
            lemma_elem(k, ns[m as int], m as int, t, len);
            assert(settop(t, elem_state(k, len, n as int)) =~= settop(s, elem_state(k, len, n as int)));
            if let Tr::Ok(u) = t_elem(k, ns[m as int], t) {
                lemma_fits(x, u);
            }
            if all_conf(k, ns, es, n as int, p, len) { assert(elem_conf(k, ns, es, m as int, p, len)); }
            else {
                assert(!elem_conf(k, ns, es, m as int, p, len)) by {
                    if elem_conf(k, ns, es, m as int, p, len) { assert forall|i: int| 0 <= i < n implies #[trigger] elem_conf(k, ns, es, i, p, len) by {} }
                }
            }
        } else {
            assert(!all_conf(k, ns, es, n as int, p, len)) by {
                if all_conf(k, ns, es, n as int, p, len) { lemma_all_less(k, ns, es, m as int, n as int, p, len); }
            }
        }
    }
}
pub proof fn lemma_fits_some<'a>(x: GV, s: Seq<StackFrame<'a>>)
    requires stable(s), needs(s), s.len() + 1 + depth(x) < usize::MAX,
    ensures run_fits(GV::Some(Box::new(x)), s),
    decreases x, 2nat,
{
    let p = top_path(s);
    let g = GV::Some(Box::new(x));
    lemma_top(s);
    lemma_run_leaf(g, s, Seq::empty());
    if let Schema::Option(c) = top_schema(s) {
        let s1 = settop(s, ApiState::AutoFinish);
        assert(settop(settop(s, ApiState::OptionUninitSomeness), ApiState::AutoFinish) =~= s1);
        lemma_settop(s, ApiState::AutoFinish);
        lemma_settop(s, ApiState::OptionUninitSomeness);
        lemma_settop_path(s, ApiState::AutoFinish);
        lemma_push_child(s1, *c);
        lemma_option_ready(s);
        assert(e_some(s) == pushed(s1, *c));
        if let Tr::Ok(t) = pushed(s1, *c) {
            lemma_fits(x, t);
            lemma_popped_auto(s, s1);
            assert(popped(t) == popped(s));
        }
    } else { assert(!(e_some(s) is Ok)); assert(!conf(g, p)); }
}
/// an option or enum ends with what is in it
pub proof fn lemma_popped_auto<'a>(s: Seq<StackFrame<'a>>, s1: Seq<StackFrame<'a>>)
    requires s.len() > 0, s1 == settop(s, ApiState::AutoFinish),
    ensures strip(s1) == popped(s),
{ assert(s1.drop_last() =~= s.drop_last()); assert(s1.last().api_state is AutoFinish); }
pub proof fn lemma_top<'a>(s: Seq<StackFrame<'a>>)
    requires wfx(s), s.len() > 0,
    ensures top_path(s).len() > 0, top_path(s).last() == top_schema(s),
{
    assert(s.last() == s[s.len() - 1]);
    assert(s[s.len() - 1].parent matches Some(j) ==> j < s.len() - 1);
}
pub proof fn lemma_fits_enum<'a>(o: nat, n: Seq<char>, x: GV, s: Seq<StackFrame<'a>>)
    requires stable(s), needs(s), s.len() + 1 + depth(x) < usize::MAX,
    ensures run_fits(GV::Enum(o, n, Box::new(x)), s),
    decreases x, 2nat,
{
    let p = top_path(s);
    let g = GV::Enum(o, n, Box::new(x));
    lemma_top(s);
    lemma_run_leaf(g, s, Seq::empty());
    if let Schema::Enum(vs) = top_schema(s) {
        assert(vs.len() <= usize::MAX);
        if o < vs@.len() {
            let s1 = settop(s, ApiState::AutoFinish);
            let ou = o as usize;
            lemma_enum_ready(s, ou, n);
            assert(settop(settop(settop(s, ApiState::Enum { variant_ord: None }), ApiState::Enum { variant_ord: Some(ou) }), ApiState::AutoFinish) =~= s1);
            lemma_settop(s, ApiState::AutoFinish);
            lemma_settop_path(s, ApiState::AutoFinish);
            let c = vs@[o as int].inner;
            lemma_push_child(s1, c);
            if n == vs@[o as int].name@ {
                assert(e_enum(s, ou, n) == pushed(s1, c));
                if let Tr::Ok(t) = pushed(s1, c) {
                    lemma_fits(x, t);
                    lemma_popped_auto(s, s1);
                    assert(popped(t) == popped(s));
                }
            } else { assert(!(e_enum(s, ou, n) is Ok)); }
        } else if o <= usize::MAX { assert(!(e_enum(s, o as usize, n) is Ok)); }
    } else { assert(!conf(g, p)); if o <= usize::MAX { assert(!(e_enum(s, o as usize, n) is Ok)); } }
}
/// the theorem, from any place where a value is needed
//@ C08,C04,C09,C10
pub proof fn lemma_fits<'a>(g: GV, s: Seq<StackFrame<'a>>)
    requires stable(s), needs(s), s.len() + depth(g) < usize::MAX,
    ensures run_fits(g, s),
    decreases g, 1nat,
{
    let p = top_path(s);
    lemma_top(s);
    if has_elems(g) {
        lemma_fits_elems(g, s);
    } else {
        match g {
            GV::Some(x) => { lemma_fits_some(*x, s); assert(g == GV::Some(Box::new(*x))); },
            GV::Enum(o, n, x) => { lemma_fits_enum(o, n, *x, s); assert(g == GV::Enum(o, n, Box::new(*x))); },
            _ => {
                lemma_run_leaf(g, s, Seq::empty());
                if g is None && top_schema(s) is Option {
                    assert(settop(s, ApiState::OptionUninitSomeness).drop_last() =~= s.drop_last());
                    assert(e_none(s) == Tr::Ok(popped(s)));
                }
            }
        }
    }
}
/// conforming, part by part
pub open spec fn shape_fits(g: GV, s: Schema) -> bool {
    match g {
        GV::FixedSeq(es) => s is Seq && s->Seq_0.len is Some && s->Seq_0.len->Some_0 as nat == es.len(),
        GV::VarSeq(es) => s is Seq && s->Seq_0.len is None && es.len() <= usize::MAX,
        GV::Tuple(es) => s is Tuple && es.len() == s->Tuple_0@.len(),
        GV::Struct(ns, es) => s is Struct && es.len() == s->Struct_0@.len() && ns.len() == es.len(),
        _ => false,
    }
}
pub proof fn lemma_conf_elems(g: GV, p: Seq<Schema>, len: usize)
    requires has_elems(g), p.len() > 0, gkind(g) is Seq ==> len as nat == gelems(g).len(),
    ensures conf(g, p) <==> shape_fits(g, p.last()) && all_conf(gkind(g), gnames(g), gelems(g), gelems(g).len() as int, p, len),
        enc(g, p) == gpfx(g) + enc_seq(gelems(g), gelems(g).len(), p),
{
    let es = gelems(g);
    let (k, ns) = (gkind(g), gnames(g));
    if conf(g, p) {
        assert(shape_fits(g, p.last()));
        assert forall|i: int| 0 <= i < es.len() implies #[trigger] elem_conf(k, ns, es, i, p, len) by { assert(es[i] == es[i]); let x = es[i];
            match g { GV::FixedSeq(e) => { assert(e[i] == x); }, GV::VarSeq(e) => { assert(e[i] == x); }, GV::Tuple(e) => { assert(e[i] == x); }, GV::Struct(n, e) => { assert(e[i] == x); }, _ => {} }
        }
    }
    if shape_fits(g, p.last()) && all_conf(k, ns, es, es.len() as int, p, len) {
        assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies elem_conf(k, ns, es, i, p, len) by {}
        match g {
            GV::FixedSeq(e) => {
                let q = p.last()->Seq_0;
                assert forall|i: int| #![trigger e[i]] 0 <= i < e.len() implies child(p, *q.inner) is Some && conf(e[i], child(p, *q.inner)->Some_0) by { assert(elem_conf(k, ns, es, i, p, len)); }
                if e.len() > 0 { assert(elem_conf(k, ns, es, 0, p, len)); assert(child(p, *q.inner) is Some); }
                assert(p.last() == Schema::Seq(q));
                assert(conf(GV::FixedSeq(e), p));
            },
            GV::VarSeq(e) => {
                let q = p.last()->Seq_0;
                assert forall|i: int| #![trigger e[i]] 0 <= i < e.len() implies child(p, *q.inner) is Some && conf(e[i], child(p, *q.inner)->Some_0) by { assert(elem_conf(k, ns, es, i, p, len)); }
                if e.len() > 0 { assert(elem_conf(k, ns, es, 0, p, len)); assert(child(p, *q.inner) is Some); }
                assert(p.last() == Schema::Seq(q));
                assert(conf(GV::VarSeq(e), p));
            },
            GV::Tuple(e) => {
                let ts = p.last()->Tuple_0;
                assert forall|i: int| #![trigger e[i]] #![trigger ts@[i]] 0 <= i < e.len() implies child(p, ts@[i]) is Some && conf(e[i], child(p, ts@[i])->Some_0) by { assert(elem_conf(k, ns, es, i, p, len)); }
                assert(p.last() == Schema::Tuple(ts)); assert(e.len() == ts@.len());
                assert(conf(GV::Tuple(e), p));
            },
            GV::Struct(n, e) => {
                let fs = p.last()->Struct_0;
                assert forall|i: int| #![trigger e[i]] #![trigger fs@[i]] 0 <= i < e.len() implies n[i] == fs@[i].name@ && child(p, fs@[i].inner) is Some && conf(e[i], child(p, fs@[i].inner)->Some_0) by { assert(elem_conf(k, ns, es, i, p, len)); }
                assert(p.last() == Schema::Struct(fs)); assert(e.len() == fs@.len() && n.len() == e.len());
                assert(conf(GV::Struct(n, e), p));
            },
            _ => {}
        }
    }
}
pub proof fn lemma_fits_elems<'a>(g: GV, s: Seq<StackFrame<'a>>)
    requires stable(s), needs(s), s.len() + depth(g) < usize::MAX, has_elems(g), top_path(s).last() == top_schema(s), top_path(s).len() > 0, 
    ensures run_fits(g, s),
    decreases g, 0nat,
{
    let p = top_path(s);
    let es = gelems(g);
    let k = gkind(g);
    let ns = gnames(g);
    let len: usize = if k is Seq { es.len() as usize } else { 0 };
    assert(s.last() == s[s.len() - 1]);
    lemma_run_begin(g, s);
    lemma_begins(s);
    if k is Seq && es.len() > usize::MAX {
        assert(!(run(g, s).tr is Ok));
        assert(!conf(g, p));
    } else {
        lemma_conf_elems(g, p, len);
        if let Tr::Ok(t0) = begun(g, s) {
            let st = elem_state(k, len, 0);
            assert(t0 =~= settop(s, st));
            lemma_settop(s, st);
            lemma_settop_path(s, st);
            assert(stable(t0));
            lemma_seq_fits(k, ns, es, es.len(), t0, len);
            lemma_run_finish(g, s, t0, Seq::empty());
            if all_conf(k, ns, es, es.len() as int, p, len) {
                let u = settop(t0, elem_state(k, len, es.len() as int));
                assert(run_to(g, es.len() as int, t0).tr == Tr::Ok(u));
                if k is Tuple { assert(top_schema(s)->Tuple_0.len() <= usize::MAX); }
                if k is Struct { assert(top_schema(s)->Struct_0.len() <= usize::MAX); }
                assert(u.drop_last() =~= s.drop_last());
                assert(top_state(u) == elem_state(k, len, es.len() as int));
                assert(run(g, s).tr == t_finish(k, u));
                if shape_fits(g, p.last()) { assert(t_finish(k, u) == Tr::Ok(popped(s))); }
                else { assert(!(t_finish(k, u) is Ok)); }
            } else {
                assert(!(run_to(g, es.len() as int, t0).tr is Ok));
                assert(!(run(g, s).tr is Ok)) by { reveal(run); reveal(run_seq); }
            }
        } else {
            assert(!shape_fits(g, p.last()));
        }
    }
}
/// every level of a value takes memory of its own, and no memory is larger than half the address space
#[verifier::external_body]
pub proof fn axiom_depth(v: Value)
    ensures depth(gv(v)) <= isize::MAX,
{}
/// while elements are being coded, the coder is not finished
//@ C10
pub proof fn lemma_run_len<'a>(g: GV, n: int, s: Seq<StackFrame<'a>>, t0: Seq<StackFrame<'a>>)
    requires has_elems(g), 0 <= n <= gelems(g).len(), begun(g, s) == Tr::Ok(t0), stable(s), s.len() <= isize::MAX, depth(g) <= isize::MAX,
    ensures run_to(g, n, t0).tr matches Tr::Ok(t) ==> t.len() > 0 && (t_elem(gkind(g), gnames(g)[n], t) matches Tr::Ok(u) ==> u.len() > 0),
{
    let es = gelems(g);
    let k = gkind(g);
    let ns = gnames(g);
    let len: usize = if k is Seq { es.len() as usize } else { 0 };
    let st = elem_state(k, len, 0);
    assert(s.last() == s[s.len() - 1]);
    assert(t0 =~= settop(s, st));
    lemma_settop(s, st);
    assert(stable(t0));
    lemma_depths(es, n as nat, es.len());
    lemma_seq_fits(k, ns, es, n as nat, t0, len);
}
pub proof fn lemma_depths(es: Seq<GV>, m: nat, n: nat)
    requires m <= n <= es.len(),
    ensures depths(es, m) <= depths(es, n),
    decreases n,
{ reveal_with_fuel(depths, 2); if m < n { lemma_depths(es, m, (n - 1) as nat); } }
/// a coder for a schema, at the beginning
pub open spec fn fresh<'a>(s: Seq<StackFrame<'a>>, sch: Schema) -> bool {
    s.len() == 1 && *s[0].schema == sch && s[0].parent is None && s[0].api_state is Need
}
//@ C08,C10
pub proof fn theorem_fresh<'a>(g: GV, s: Seq<StackFrame<'a>>, sch: Schema)
    requires fresh(s, sch), depth(g) <= isize::MAX,
    ensures stable(s), top_path(s) == seq![sch],
        conf(g, seq![sch]) ==> run(g, s) == (Run { tr: Tr::Ok(Seq::<StackFrame<'a>>::empty()), b: enc(g, seq![sch]) }),
        !conf(g, seq![sch]) ==> !(run(g, s).tr is Ok),
{
    assert(s.last() == s[0]);
    assert(path(s, s[0].parent) == Seq::<Schema>::empty());
    assert(top_path(s) == Seq::<Schema>::empty().push(*s[0].schema));
    assert(top_path(s) =~= seq![sch]);
    assert(stable(s));
    lemma_fits(g, s);
    assert(s.drop_last() =~= Seq::<StackFrame<'a>>::empty());
}

// ---- the properties, as functions verified against the contracts of the crate
/// C08, C10: coding a value with a new coder
//@ C08,C10,C04
pub fn client_encode<'a, W: io::Write>(v: &Value, e: &mut Encoder<'a, 'a, W>, Ghost(sch): Ghost<Schema>) -> (r: core::result::Result<bool, crate::error::Error>)
    requires !old(e).state.broken, fresh(old(e).state.stack@, sch),
    ensures
        r is Ok ==> conf(gv(*v), seq![sch]) && (*final(e)).write.written() == (*old(e)).write.written() + enc(gv(*v), seq![sch]) && r->Ok_0,
        r is Err ==> (*final(e)).state.broken || (*final(e)).state.stack@.len() > 0,
        conf(gv(*v), seq![sch]) && (*old(e)).write.reliable() ==> r is Ok,
{
    proof { axiom_depth(*v); theorem_fresh(gv(*v), e.state.stack@, sch); }
    match v.encode_to(e) {
        Ok(_) => Ok(e.coder_state().is_finished()),
        Err(x) => Err(x),
    }
}
