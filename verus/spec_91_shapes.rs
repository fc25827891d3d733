//@file C14
// ======== the types derive(KnownSchema) is applied to in shapes/ (written by
// tools/genshapes.py). Of the types A, B, C of their fields nothing is known but that
// their values conform to their schemas.
/// A type whose values conform to its known schema, wherever in a tree of schemas.
pub trait Derived: KnownSchema {
    spec fn gv(&self) -> GV;
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
        requires place(l, p), Self::is_schema(l, r),
        ensures child(p, r) is Some, conf(self.gv(), child(p, r)->Some_0);
}
pub uninterp spec fn is_a(l: Seq<Layer>, r: Schema) -> bool;
pub uninterp spec fn gv_a(x: crate::shapes::A) -> GV;
impl Derived for crate::shapes::A {
    open spec fn gv(&self) -> GV { gv_a(*self) }
    #[verifier::external_body]
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {}
}
pub uninterp spec fn is_b(l: Seq<Layer>, r: Schema) -> bool;
pub uninterp spec fn gv_b(x: crate::shapes::B) -> GV;
impl Derived for crate::shapes::B {
    open spec fn gv(&self) -> GV { gv_b(*self) }
    #[verifier::external_body]
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {}
}
pub uninterp spec fn is_c(l: Seq<Layer>, r: Schema) -> bool;
pub uninterp spec fn gv_c(x: crate::shapes::C) -> GV;
impl Derived for crate::shapes::C {
    open spec fn gv(&self) -> GV { gv_c(*self) }
    #[verifier::external_body]
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {}
}
/// these are levels of the tree
#[verifier::external_body]
pub proof fn axiom_through()
    ensures !through(tid::<crate::shapes::UnitS>()), !through(tid::<crate::shapes::Empty0>()), !through(tid::<crate::shapes::EmptyN>()), !through(tid::<crate::shapes::Pair>()), !through(tid::<crate::shapes::Triple>()), !through(tid::<crate::shapes::One>()), !through(tid::<crate::shapes::Three>()), !through(tid::<crate::shapes::Single>()), !through(tid::<crate::shapes::SingleT>()), !through(tid::<crate::shapes::SingleN>()), !through(tid::<crate::shapes::Units>()), !through(tid::<crate::shapes::News>()), !through(tid::<crate::shapes::Tuples>()), !through(tid::<crate::shapes::Structs>()), !through(tid::<crate::shapes::Mixed>()), !through(tid::<crate::shapes::WideT>()), !through(tid::<crate::shapes::WideN>()), !through(tid::<crate::shapes::WideE>()),
{}
//@ C14
pub proof fn lemma_of_UnitS(x: &crate::shapes::UnitS, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <crate::shapes::UnitS as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<crate::shapes::UnitS>(l, p, r); let m = l.push(is_type(tid::<crate::shapes::UnitS>())); let pp = p.push(r);
        assert(conf(GV::Unit, pp));
}
impl Derived for crate::shapes::UnitS {
    open spec fn gv(&self) -> GV { GV::Unit }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<crate::shapes::UnitS>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_UnitS(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_UnitS(self, l, p, r); }
    }
}
//@ C14
pub proof fn lemma_of_Empty0(x: &crate::shapes::Empty0, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <crate::shapes::Empty0 as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<crate::shapes::Empty0>(l, p, r); let m = l.push(is_type(tid::<crate::shapes::Empty0>())); let pp = p.push(r);
        assert(conf(GV::Unit, pp));
}
impl Derived for crate::shapes::Empty0 {
    open spec fn gv(&self) -> GV { GV::Unit }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<crate::shapes::Empty0>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_Empty0(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_Empty0(self, l, p, r); }
    }
}
//@ C14
pub proof fn lemma_of_EmptyN(x: &crate::shapes::EmptyN, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <crate::shapes::EmptyN as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<crate::shapes::EmptyN>(l, p, r); let m = l.push(is_type(tid::<crate::shapes::EmptyN>())); let pp = p.push(r);
        let m2 = m; let p2 = pp; let f = (r)->Struct_0; assert(Seq::<GV>::empty().len() == 0); assert(conf(GV::Struct(Seq::<Seq<char>>::empty(), Seq::<GV>::empty()), p2));
}
impl Derived for crate::shapes::EmptyN {
    open spec fn gv(&self) -> GV { GV::Struct(Seq::<Seq<char>>::empty(), Seq::<GV>::empty()) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<crate::shapes::EmptyN>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_EmptyN(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_EmptyN(self, l, p, r); }
    }
}
//@ C14
pub proof fn lemma_of_Pair(x: &crate::shapes::Pair, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <crate::shapes::Pair as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<crate::shapes::Pair>(l, p, r); let m = l.push(is_type(tid::<crate::shapes::Pair>())); let pp = p.push(r);
        let m2 = m; let p2 = pp; let f = (r)->Tuple_0; x.0.lemma_conforms(m2, p2, f@[0]); x.1.lemma_conforms(m2, p2, f@[1]); let es = seq![x.0.gv(), x.1.gv()]; assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(p2, f@[i]) is Some && conf(es[i], child(p2, f@[i])->Some_0) by { if i == 0 {} else if i == 1 {} } assert(conf(GV::Tuple(seq![x.0.gv(), x.1.gv()]), p2));
}
impl Derived for crate::shapes::Pair {
    open spec fn gv(&self) -> GV { GV::Tuple(seq![self.0.gv(), self.1.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<crate::shapes::Pair>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_Pair(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_Pair(self, l, p, r); }
    }
}
//@ C14
pub proof fn lemma_of_Triple(x: &crate::shapes::Triple, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <crate::shapes::Triple as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<crate::shapes::Triple>(l, p, r); let m = l.push(is_type(tid::<crate::shapes::Triple>())); let pp = p.push(r);
        let m2 = m; let p2 = pp; let f = (r)->Tuple_0; x.0.lemma_conforms(m2, p2, f@[0]); x.1.lemma_conforms(m2, p2, f@[1]); x.2.lemma_conforms(m2, p2, f@[2]); let es = seq![x.0.gv(), x.1.gv(), x.2.gv()]; assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(p2, f@[i]) is Some && conf(es[i], child(p2, f@[i])->Some_0) by { if i == 0 {} else if i == 1 {} else if i == 2 {} } assert(conf(GV::Tuple(seq![x.0.gv(), x.1.gv(), x.2.gv()]), p2));
}
impl Derived for crate::shapes::Triple {
    open spec fn gv(&self) -> GV { GV::Tuple(seq![self.0.gv(), self.1.gv(), self.2.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<crate::shapes::Triple>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_Triple(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_Triple(self, l, p, r); }
    }
}
//@ C14
pub proof fn lemma_of_One(x: &crate::shapes::One, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <crate::shapes::One as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<crate::shapes::One>(l, p, r); let m = l.push(is_type(tid::<crate::shapes::One>())); let pp = p.push(r);
        let m2 = m; let p2 = pp; let f = (r)->Struct_0; x.a.lemma_conforms(m2, p2, f@[0].inner); let es = seq![x.a.gv()]; let ns = seq!["a"@]; assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies ns[i] == f@[i].name@ && child(p2, f@[i].inner) is Some && conf(es[i], child(p2, f@[i].inner)->Some_0) by { if i == 0 {} } assert(conf(GV::Struct(seq!["a"@], seq![x.a.gv()]), p2));
}
impl Derived for crate::shapes::One {
    open spec fn gv(&self) -> GV { GV::Struct(seq!["a"@], seq![self.a.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<crate::shapes::One>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_One(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_One(self, l, p, r); }
    }
}
//@ C14
pub proof fn lemma_of_Three(x: &crate::shapes::Three, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <crate::shapes::Three as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<crate::shapes::Three>(l, p, r); let m = l.push(is_type(tid::<crate::shapes::Three>())); let pp = p.push(r);
        let m2 = m; let p2 = pp; let f = (r)->Struct_0; x.c.lemma_conforms(m2, p2, f@[0].inner); x.r#type.lemma_conforms(m2, p2, f@[1].inner); x.b.lemma_conforms(m2, p2, f@[2].inner); let es = seq![x.c.gv(), x.r#type.gv(), x.b.gv()]; let ns = seq!["c"@, "type"@, "b"@]; assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies ns[i] == f@[i].name@ && child(p2, f@[i].inner) is Some && conf(es[i], child(p2, f@[i].inner)->Some_0) by { if i == 0 {} else if i == 1 {} else if i == 2 {} } assert(conf(GV::Struct(seq!["c"@, "type"@, "b"@], seq![x.c.gv(), x.r#type.gv(), x.b.gv()]), p2));
}
impl Derived for crate::shapes::Three {
    open spec fn gv(&self) -> GV { GV::Struct(seq!["c"@, "type"@, "b"@], seq![self.c.gv(), self.r#type.gv(), self.b.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<crate::shapes::Three>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_Three(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_Three(self, l, p, r); }
    }
}
//@ C14
pub proof fn lemma_of_Single(x: &crate::shapes::Single, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <crate::shapes::Single as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<crate::shapes::Single>(l, p, r); let m = l.push(is_type(tid::<crate::shapes::Single>())); let pp = p.push(r);
        let vs = r->Enum_0;
        match x {
            crate::shapes::Single::Only => { assert(child(pp, vs@[0].inner) == Some(pp.push(Schema::Unit))); assert(conf(GV::Unit, pp.push(Schema::Unit))); }
        }
}
impl Derived for crate::shapes::Single {
    open spec fn gv(&self) -> GV { match self { crate::shapes::Single::Only => GV::Enum(0, "Only"@, Box::new(GV::Unit)) } }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<crate::shapes::Single>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_Single(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_Single(self, l, p, r); }
    }
}
//@ C14
pub proof fn lemma_of_SingleT(x: &crate::shapes::SingleT, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <crate::shapes::SingleT as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<crate::shapes::SingleT>(l, p, r); let m = l.push(is_type(tid::<crate::shapes::SingleT>())); let pp = p.push(r);
        let vs = r->Enum_0;
        match x {
            crate::shapes::SingleT::Only(x0, x1) => { lemma_place_level(m, pp, vs@[0].inner); let m2 = m.push(is_level()); let p2 = pp.push(vs@[0].inner); let f = (vs@[0].inner)->Tuple_0; x0.lemma_conforms(m2, p2, f@[0]); x1.lemma_conforms(m2, p2, f@[1]); let es = seq![x0.gv(), x1.gv()]; assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(p2, f@[i]) is Some && conf(es[i], child(p2, f@[i])->Some_0) by { if i == 0 {} else if i == 1 {} } assert(conf(GV::Tuple(seq![x0.gv(), x1.gv()]), p2)); }
        }
}
impl Derived for crate::shapes::SingleT {
    open spec fn gv(&self) -> GV { match self { crate::shapes::SingleT::Only(x0, x1) => GV::Enum(0, "Only"@, Box::new(GV::Tuple(seq![x0.gv(), x1.gv()]))) } }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<crate::shapes::SingleT>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_SingleT(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_SingleT(self, l, p, r); }
    }
}
//@ C14
pub proof fn lemma_of_SingleN(x: &crate::shapes::SingleN, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <crate::shapes::SingleN as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<crate::shapes::SingleN>(l, p, r); let m = l.push(is_type(tid::<crate::shapes::SingleN>())); let pp = p.push(r);
        let vs = r->Enum_0;
        match x {
            crate::shapes::SingleN::Only { only: y0 } => { lemma_place_level(m, pp, vs@[0].inner); let m2 = m.push(is_level()); let p2 = pp.push(vs@[0].inner); let f = (vs@[0].inner)->Struct_0; y0.lemma_conforms(m2, p2, f@[0].inner); let es = seq![y0.gv()]; let ns = seq!["only"@]; assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies ns[i] == f@[i].name@ && child(p2, f@[i].inner) is Some && conf(es[i], child(p2, f@[i].inner)->Some_0) by { if i == 0 {} } assert(conf(GV::Struct(seq!["only"@], seq![y0.gv()]), p2)); }
        }
}
impl Derived for crate::shapes::SingleN {
    open spec fn gv(&self) -> GV { match self { crate::shapes::SingleN::Only { only: y0 } => GV::Enum(0, "Only"@, Box::new(GV::Struct(seq!["only"@], seq![y0.gv()]))) } }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<crate::shapes::SingleN>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_SingleN(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_SingleN(self, l, p, r); }
    }
}
//@ C14
pub proof fn lemma_of_Units(x: &crate::shapes::Units, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <crate::shapes::Units as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<crate::shapes::Units>(l, p, r); let m = l.push(is_type(tid::<crate::shapes::Units>())); let pp = p.push(r);
        let vs = r->Enum_0;
        match x {
            crate::shapes::Units::X => { assert(child(pp, vs@[0].inner) == Some(pp.push(Schema::Unit))); assert(conf(GV::Unit, pp.push(Schema::Unit))); },
            crate::shapes::Units::Y => { assert(child(pp, vs@[1].inner) == Some(pp.push(Schema::Unit))); assert(conf(GV::Unit, pp.push(Schema::Unit))); },
            crate::shapes::Units::r#Loop => { assert(child(pp, vs@[2].inner) == Some(pp.push(Schema::Unit))); assert(conf(GV::Unit, pp.push(Schema::Unit))); }
        }
}
impl Derived for crate::shapes::Units {
    open spec fn gv(&self) -> GV { match self { crate::shapes::Units::X => GV::Enum(0, "X"@, Box::new(GV::Unit)), crate::shapes::Units::Y => GV::Enum(1, "Y"@, Box::new(GV::Unit)), crate::shapes::Units::r#Loop => GV::Enum(2, "Loop"@, Box::new(GV::Unit)) } }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<crate::shapes::Units>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_Units(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_Units(self, l, p, r); }
    }
}
//@ C14
pub proof fn lemma_of_News(x: &crate::shapes::News, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <crate::shapes::News as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<crate::shapes::News>(l, p, r); let m = l.push(is_type(tid::<crate::shapes::News>())); let pp = p.push(r);
        let vs = r->Enum_0;
        match x {
            crate::shapes::News::P(x0) => { x0.lemma_conforms(m, pp, vs@[0].inner); },
            crate::shapes::News::Q(x0) => { x0.lemma_conforms(m, pp, vs@[1].inner); },
            crate::shapes::News::R(x0) => { x0.lemma_conforms(m, pp, vs@[2].inner); }
        }
}
impl Derived for crate::shapes::News {
    open spec fn gv(&self) -> GV { match self { crate::shapes::News::P(x0) => GV::Enum(0, "P"@, Box::new(x0.gv())), crate::shapes::News::Q(x0) => GV::Enum(1, "Q"@, Box::new(x0.gv())), crate::shapes::News::R(x0) => GV::Enum(2, "R"@, Box::new(x0.gv())) } }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<crate::shapes::News>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_News(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_News(self, l, p, r); }
    }
}
//@ C14
pub proof fn lemma_of_Tuples(x: &crate::shapes::Tuples, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <crate::shapes::Tuples as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<crate::shapes::Tuples>(l, p, r); let m = l.push(is_type(tid::<crate::shapes::Tuples>())); let pp = p.push(r);
        let vs = r->Enum_0;
        match x {
            crate::shapes::Tuples::P(x0, x1) => { lemma_place_level(m, pp, vs@[0].inner); let m2 = m.push(is_level()); let p2 = pp.push(vs@[0].inner); let f = (vs@[0].inner)->Tuple_0; x0.lemma_conforms(m2, p2, f@[0]); x1.lemma_conforms(m2, p2, f@[1]); let es = seq![x0.gv(), x1.gv()]; assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(p2, f@[i]) is Some && conf(es[i], child(p2, f@[i])->Some_0) by { if i == 0 {} else if i == 1 {} } assert(conf(GV::Tuple(seq![x0.gv(), x1.gv()]), p2)); },
            crate::shapes::Tuples::Q(x0, x1, x2) => { lemma_place_level(m, pp, vs@[1].inner); let m2 = m.push(is_level()); let p2 = pp.push(vs@[1].inner); let f = (vs@[1].inner)->Tuple_0; x0.lemma_conforms(m2, p2, f@[0]); x1.lemma_conforms(m2, p2, f@[1]); x2.lemma_conforms(m2, p2, f@[2]); let es = seq![x0.gv(), x1.gv(), x2.gv()]; assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(p2, f@[i]) is Some && conf(es[i], child(p2, f@[i])->Some_0) by { if i == 0 {} else if i == 1 {} else if i == 2 {} } assert(conf(GV::Tuple(seq![x0.gv(), x1.gv(), x2.gv()]), p2)); }
        }
}
impl Derived for crate::shapes::Tuples {
    open spec fn gv(&self) -> GV { match self { crate::shapes::Tuples::P(x0, x1) => GV::Enum(0, "P"@, Box::new(GV::Tuple(seq![x0.gv(), x1.gv()]))), crate::shapes::Tuples::Q(x0, x1, x2) => GV::Enum(1, "Q"@, Box::new(GV::Tuple(seq![x0.gv(), x1.gv(), x2.gv()]))) } }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<crate::shapes::Tuples>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_Tuples(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_Tuples(self, l, p, r); }
    }
}
//@ C14
pub proof fn lemma_of_Structs(x: &crate::shapes::Structs, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <crate::shapes::Structs as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<crate::shapes::Structs>(l, p, r); let m = l.push(is_type(tid::<crate::shapes::Structs>())); let pp = p.push(r);
        let vs = r->Enum_0;
        match x {
            crate::shapes::Structs::P { x: y0 } => { lemma_place_level(m, pp, vs@[0].inner); let m2 = m.push(is_level()); let p2 = pp.push(vs@[0].inner); let f = (vs@[0].inner)->Struct_0; y0.lemma_conforms(m2, p2, f@[0].inner); let es = seq![y0.gv()]; let ns = seq!["x"@]; assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies ns[i] == f@[i].name@ && child(p2, f@[i].inner) is Some && conf(es[i], child(p2, f@[i].inner)->Some_0) by { if i == 0 {} } assert(conf(GV::Struct(seq!["x"@], seq![y0.gv()]), p2)); },
            crate::shapes::Structs::Q { y: y0, k: y1 } => { lemma_place_level(m, pp, vs@[1].inner); let m2 = m.push(is_level()); let p2 = pp.push(vs@[1].inner); let f = (vs@[1].inner)->Struct_0; y0.lemma_conforms(m2, p2, f@[0].inner); y1.lemma_conforms(m2, p2, f@[1].inner); let es = seq![y0.gv(), y1.gv()]; let ns = seq!["y"@, "k"@]; assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies ns[i] == f@[i].name@ && child(p2, f@[i].inner) is Some && conf(es[i], child(p2, f@[i].inner)->Some_0) by { if i == 0 {} else if i == 1 {} } assert(conf(GV::Struct(seq!["y"@, "k"@], seq![y0.gv(), y1.gv()]), p2)); }
        }
}
impl Derived for crate::shapes::Structs {
    open spec fn gv(&self) -> GV { match self { crate::shapes::Structs::P { x: y0 } => GV::Enum(0, "P"@, Box::new(GV::Struct(seq!["x"@], seq![y0.gv()]))), crate::shapes::Structs::Q { y: y0, k: y1 } => GV::Enum(1, "Q"@, Box::new(GV::Struct(seq!["y"@, "k"@], seq![y0.gv(), y1.gv()]))) } }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<crate::shapes::Structs>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_Structs(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_Structs(self, l, p, r); }
    }
}
//@ C14
pub proof fn lemma_of_Mixed(x: &crate::shapes::Mixed, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <crate::shapes::Mixed as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<crate::shapes::Mixed>(l, p, r); let m = l.push(is_type(tid::<crate::shapes::Mixed>())); let pp = p.push(r);
        let vs = r->Enum_0;
        match x {
            crate::shapes::Mixed::U => { assert(child(pp, vs@[0].inner) == Some(pp.push(Schema::Unit))); assert(conf(GV::Unit, pp.push(Schema::Unit))); },
            crate::shapes::Mixed::E() => { assert(child(pp, vs@[1].inner) == Some(pp.push(Schema::Unit))); assert(conf(GV::Unit, pp.push(Schema::Unit))); },
            crate::shapes::Mixed::N(x0) => { x0.lemma_conforms(m, pp, vs@[2].inner); },
            crate::shapes::Mixed::T(x0, x1) => { lemma_place_level(m, pp, vs@[3].inner); let m2 = m.push(is_level()); let p2 = pp.push(vs@[3].inner); let f = (vs@[3].inner)->Tuple_0; x0.lemma_conforms(m2, p2, f@[0]); x1.lemma_conforms(m2, p2, f@[1]); let es = seq![x0.gv(), x1.gv()]; assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(p2, f@[i]) is Some && conf(es[i], child(p2, f@[i])->Some_0) by { if i == 0 {} else if i == 1 {} } assert(conf(GV::Tuple(seq![x0.gv(), x1.gv()]), p2)); },
            crate::shapes::Mixed::S { x: y0, z: y1 } => { lemma_place_level(m, pp, vs@[4].inner); let m2 = m.push(is_level()); let p2 = pp.push(vs@[4].inner); let f = (vs@[4].inner)->Struct_0; y0.lemma_conforms(m2, p2, f@[0].inner); y1.lemma_conforms(m2, p2, f@[1].inner); let es = seq![y0.gv(), y1.gv()]; let ns = seq!["x"@, "z"@]; assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies ns[i] == f@[i].name@ && child(p2, f@[i].inner) is Some && conf(es[i], child(p2, f@[i].inner)->Some_0) by { if i == 0 {} else if i == 1 {} } assert(conf(GV::Struct(seq!["x"@, "z"@], seq![y0.gv(), y1.gv()]), p2)); },
            crate::shapes::Mixed::Z {  } => { lemma_place_level(m, pp, vs@[5].inner); let m2 = m.push(is_level()); let p2 = pp.push(vs@[5].inner); let f = (vs@[5].inner)->Struct_0; assert(Seq::<GV>::empty().len() == 0); assert(conf(GV::Struct(Seq::<Seq<char>>::empty(), Seq::<GV>::empty()), p2)); },
            crate::shapes::Mixed::L => { assert(child(pp, vs@[6].inner) == Some(pp.push(Schema::Unit))); assert(conf(GV::Unit, pp.push(Schema::Unit))); }
        }
}
impl Derived for crate::shapes::Mixed {
    open spec fn gv(&self) -> GV { match self { crate::shapes::Mixed::U => GV::Enum(0, "U"@, Box::new(GV::Unit)), crate::shapes::Mixed::E() => GV::Enum(1, "E"@, Box::new(GV::Unit)), crate::shapes::Mixed::N(x0) => GV::Enum(2, "N"@, Box::new(x0.gv())), crate::shapes::Mixed::T(x0, x1) => GV::Enum(3, "T"@, Box::new(GV::Tuple(seq![x0.gv(), x1.gv()]))), crate::shapes::Mixed::S { x: y0, z: y1 } => GV::Enum(4, "S"@, Box::new(GV::Struct(seq!["x"@, "z"@], seq![y0.gv(), y1.gv()]))), crate::shapes::Mixed::Z {  } => GV::Enum(5, "Z"@, Box::new(GV::Struct(Seq::<Seq<char>>::empty(), Seq::<GV>::empty()))), crate::shapes::Mixed::L => GV::Enum(6, "L"@, Box::new(GV::Unit)) } }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<crate::shapes::Mixed>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_Mixed(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_Mixed(self, l, p, r); }
    }
}
//@ C14
pub proof fn lemma_of_WideT(x: &crate::shapes::WideT, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <crate::shapes::WideT as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<crate::shapes::WideT>(l, p, r); let m = l.push(is_type(tid::<crate::shapes::WideT>())); let pp = p.push(r);
        let m2 = m; let p2 = pp; let f = (r)->Tuple_0; x.0.lemma_conforms(m2, p2, f@[0]); x.1.lemma_conforms(m2, p2, f@[1]); x.2.lemma_conforms(m2, p2, f@[2]); x.3.lemma_conforms(m2, p2, f@[3]); x.4.lemma_conforms(m2, p2, f@[4]); x.5.lemma_conforms(m2, p2, f@[5]); x.6.lemma_conforms(m2, p2, f@[6]); x.7.lemma_conforms(m2, p2, f@[7]); x.8.lemma_conforms(m2, p2, f@[8]); let es = seq![x.0.gv(), x.1.gv(), x.2.gv(), x.3.gv(), x.4.gv(), x.5.gv(), x.6.gv(), x.7.gv(), x.8.gv()]; assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(p2, f@[i]) is Some && conf(es[i], child(p2, f@[i])->Some_0) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else if i == 7 {} else if i == 8 {} } assert(conf(GV::Tuple(seq![x.0.gv(), x.1.gv(), x.2.gv(), x.3.gv(), x.4.gv(), x.5.gv(), x.6.gv(), x.7.gv(), x.8.gv()]), p2));
}
impl Derived for crate::shapes::WideT {
    open spec fn gv(&self) -> GV { GV::Tuple(seq![self.0.gv(), self.1.gv(), self.2.gv(), self.3.gv(), self.4.gv(), self.5.gv(), self.6.gv(), self.7.gv(), self.8.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<crate::shapes::WideT>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_WideT(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_WideT(self, l, p, r); }
    }
}
//@ C14
pub proof fn lemma_of_WideN(x: &crate::shapes::WideN, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <crate::shapes::WideN as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<crate::shapes::WideN>(l, p, r); let m = l.push(is_type(tid::<crate::shapes::WideN>())); let pp = p.push(r);
        let m2 = m; let p2 = pp; let f = (r)->Struct_0; x.f0.lemma_conforms(m2, p2, f@[0].inner); x.f1.lemma_conforms(m2, p2, f@[1].inner); x.f2.lemma_conforms(m2, p2, f@[2].inner); x.f3.lemma_conforms(m2, p2, f@[3].inner); x.f4.lemma_conforms(m2, p2, f@[4].inner); x.f5.lemma_conforms(m2, p2, f@[5].inner); x.f6.lemma_conforms(m2, p2, f@[6].inner); x.f7.lemma_conforms(m2, p2, f@[7].inner); x.f8.lemma_conforms(m2, p2, f@[8].inner); x.f9.lemma_conforms(m2, p2, f@[9].inner); x.f10.lemma_conforms(m2, p2, f@[10].inner); x.f11.lemma_conforms(m2, p2, f@[11].inner); let es = seq![x.f0.gv(), x.f1.gv(), x.f2.gv(), x.f3.gv(), x.f4.gv(), x.f5.gv(), x.f6.gv(), x.f7.gv(), x.f8.gv(), x.f9.gv(), x.f10.gv(), x.f11.gv()]; let ns = seq!["f0"@, "f1"@, "f2"@, "f3"@, "f4"@, "f5"@, "f6"@, "f7"@, "f8"@, "f9"@, "f10"@, "f11"@]; assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies ns[i] == f@[i].name@ && child(p2, f@[i].inner) is Some && conf(es[i], child(p2, f@[i].inner)->Some_0) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else if i == 7 {} else if i == 8 {} else if i == 9 {} else if i == 10 {} else if i == 11 {} } assert(conf(GV::Struct(seq!["f0"@, "f1"@, "f2"@, "f3"@, "f4"@, "f5"@, "f6"@, "f7"@, "f8"@, "f9"@, "f10"@, "f11"@], seq![x.f0.gv(), x.f1.gv(), x.f2.gv(), x.f3.gv(), x.f4.gv(), x.f5.gv(), x.f6.gv(), x.f7.gv(), x.f8.gv(), x.f9.gv(), x.f10.gv(), x.f11.gv()]), p2));
}
impl Derived for crate::shapes::WideN {
    open spec fn gv(&self) -> GV { GV::Struct(seq!["f0"@, "f1"@, "f2"@, "f3"@, "f4"@, "f5"@, "f6"@, "f7"@, "f8"@, "f9"@, "f10"@, "f11"@], seq![self.f0.gv(), self.f1.gv(), self.f2.gv(), self.f3.gv(), self.f4.gv(), self.f5.gv(), self.f6.gv(), self.f7.gv(), self.f8.gv(), self.f9.gv(), self.f10.gv(), self.f11.gv()]) }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<crate::shapes::WideN>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_WideN(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_WideN(self, l, p, r); }
    }
}
//@ C14
pub proof fn lemma_of_WideE(x: &crate::shapes::WideE, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <crate::shapes::WideE as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<crate::shapes::WideE>(l, p, r); let m = l.push(is_type(tid::<crate::shapes::WideE>())); let pp = p.push(r);
        let vs = r->Enum_0;
        match x {
            crate::shapes::WideE::V0 => { assert(child(pp, vs@[0].inner) == Some(pp.push(Schema::Unit))); assert(conf(GV::Unit, pp.push(Schema::Unit))); },
            crate::shapes::WideE::V1(x0) => { x0.lemma_conforms(m, pp, vs@[1].inner); },
            crate::shapes::WideE::V2 => { assert(child(pp, vs@[2].inner) == Some(pp.push(Schema::Unit))); assert(conf(GV::Unit, pp.push(Schema::Unit))); },
            crate::shapes::WideE::V3(x0) => { x0.lemma_conforms(m, pp, vs@[3].inner); },
            crate::shapes::WideE::V4 => { assert(child(pp, vs@[4].inner) == Some(pp.push(Schema::Unit))); assert(conf(GV::Unit, pp.push(Schema::Unit))); },
            crate::shapes::WideE::V5(x0) => { x0.lemma_conforms(m, pp, vs@[5].inner); },
            crate::shapes::WideE::V6 => { assert(child(pp, vs@[6].inner) == Some(pp.push(Schema::Unit))); assert(conf(GV::Unit, pp.push(Schema::Unit))); },
            crate::shapes::WideE::V7(x0) => { x0.lemma_conforms(m, pp, vs@[7].inner); },
            crate::shapes::WideE::V8 => { assert(child(pp, vs@[8].inner) == Some(pp.push(Schema::Unit))); assert(conf(GV::Unit, pp.push(Schema::Unit))); },
            crate::shapes::WideE::V9(x0) => { x0.lemma_conforms(m, pp, vs@[9].inner); },
            crate::shapes::WideE::V10(x0, x1) => { lemma_place_level(m, pp, vs@[10].inner); let m2 = m.push(is_level()); let p2 = pp.push(vs@[10].inner); let f = (vs@[10].inner)->Tuple_0; x0.lemma_conforms(m2, p2, f@[0]); x1.lemma_conforms(m2, p2, f@[1]); let es = seq![x0.gv(), x1.gv()]; assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(p2, f@[i]) is Some && conf(es[i], child(p2, f@[i])->Some_0) by { if i == 0 {} else if i == 1 {} } assert(conf(GV::Tuple(seq![x0.gv(), x1.gv()]), p2)); },
            crate::shapes::WideE::V11 { g: y0 } => { lemma_place_level(m, pp, vs@[11].inner); let m2 = m.push(is_level()); let p2 = pp.push(vs@[11].inner); let f = (vs@[11].inner)->Struct_0; y0.lemma_conforms(m2, p2, f@[0].inner); let es = seq![y0.gv()]; let ns = seq!["g"@]; assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies ns[i] == f@[i].name@ && child(p2, f@[i].inner) is Some && conf(es[i], child(p2, f@[i].inner)->Some_0) by { if i == 0 {} } assert(conf(GV::Struct(seq!["g"@], seq![y0.gv()]), p2)); },
            crate::shapes::WideE::V12 => { assert(child(pp, vs@[12].inner) == Some(pp.push(Schema::Unit))); assert(conf(GV::Unit, pp.push(Schema::Unit))); },
            crate::shapes::WideE::V13(x0) => { x0.lemma_conforms(m, pp, vs@[13].inner); },
            crate::shapes::WideE::V14(x0, x1) => { lemma_place_level(m, pp, vs@[14].inner); let m2 = m.push(is_level()); let p2 = pp.push(vs@[14].inner); let f = (vs@[14].inner)->Tuple_0; x0.lemma_conforms(m2, p2, f@[0]); x1.lemma_conforms(m2, p2, f@[1]); let es = seq![x0.gv(), x1.gv()]; assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies child(p2, f@[i]) is Some && conf(es[i], child(p2, f@[i])->Some_0) by { if i == 0 {} else if i == 1 {} } assert(conf(GV::Tuple(seq![x0.gv(), x1.gv()]), p2)); },
            crate::shapes::WideE::V15 { g: y0 } => { lemma_place_level(m, pp, vs@[15].inner); let m2 = m.push(is_level()); let p2 = pp.push(vs@[15].inner); let f = (vs@[15].inner)->Struct_0; y0.lemma_conforms(m2, p2, f@[0].inner); let es = seq![y0.gv()]; let ns = seq!["g"@]; assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies ns[i] == f@[i].name@ && child(p2, f@[i].inner) is Some && conf(es[i], child(p2, f@[i].inner)->Some_0) by { if i == 0 {} } assert(conf(GV::Struct(seq!["g"@], seq![y0.gv()]), p2)); },
            crate::shapes::WideE::V16 => { assert(child(pp, vs@[16].inner) == Some(pp.push(Schema::Unit))); assert(conf(GV::Unit, pp.push(Schema::Unit))); }
        }
}
impl Derived for crate::shapes::WideE {
    open spec fn gv(&self) -> GV { match self { crate::shapes::WideE::V0 => GV::Enum(0, "V0"@, Box::new(GV::Unit)), crate::shapes::WideE::V1(x0) => GV::Enum(1, "V1"@, Box::new(x0.gv())), crate::shapes::WideE::V2 => GV::Enum(2, "V2"@, Box::new(GV::Unit)), crate::shapes::WideE::V3(x0) => GV::Enum(3, "V3"@, Box::new(x0.gv())), crate::shapes::WideE::V4 => GV::Enum(4, "V4"@, Box::new(GV::Unit)), crate::shapes::WideE::V5(x0) => GV::Enum(5, "V5"@, Box::new(x0.gv())), crate::shapes::WideE::V6 => GV::Enum(6, "V6"@, Box::new(GV::Unit)), crate::shapes::WideE::V7(x0) => GV::Enum(7, "V7"@, Box::new(x0.gv())), crate::shapes::WideE::V8 => GV::Enum(8, "V8"@, Box::new(GV::Unit)), crate::shapes::WideE::V9(x0) => GV::Enum(9, "V9"@, Box::new(x0.gv())), crate::shapes::WideE::V10(x0, x1) => GV::Enum(10, "V10"@, Box::new(GV::Tuple(seq![x0.gv(), x1.gv()]))), crate::shapes::WideE::V11 { g: y0 } => GV::Enum(11, "V11"@, Box::new(GV::Struct(seq!["g"@], seq![y0.gv()]))), crate::shapes::WideE::V12 => GV::Enum(12, "V12"@, Box::new(GV::Unit)), crate::shapes::WideE::V13(x0) => GV::Enum(13, "V13"@, Box::new(x0.gv())), crate::shapes::WideE::V14(x0, x1) => GV::Enum(14, "V14"@, Box::new(GV::Tuple(seq![x0.gv(), x1.gv()]))), crate::shapes::WideE::V15 { g: y0 } => GV::Enum(15, "V15"@, Box::new(GV::Struct(seq!["g"@], seq![y0.gv()]))), crate::shapes::WideE::V16 => GV::Enum(16, "V16"@, Box::new(GV::Unit)) } }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<crate::shapes::WideE>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_WideE(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_WideE(self, l, p, r); }
    }
}
