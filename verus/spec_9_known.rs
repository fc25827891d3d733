//@file C13,C14
// ======== known schemas
use crate::known_schema::{KnownSchema, RecurseStack, Node};
// The types of std a schema is known of: what of them is to be serialized.
pub struct BinaryHeap<T> { pub v: Vec<T> }
pub struct BTreeSet<T> { pub v: Vec<T> }
pub struct HashSet<T> { pub v: Vec<T> }
pub struct LinkedList<T> { pub v: Vec<T> }
pub struct VecDeque<T> { pub v: Vec<T> }
pub struct BTreeMap<K, V> { pub v: FMap<K, V> }
pub struct HashMap<K, V> { pub v: FMap<K, V> }
pub struct Range<T> { pub start: T, pub end: T }
pub struct RangeInclusive<T> { pub start: T, pub end: T }
pub enum Bound<T> { Unbounded, Included(T), Excluded(T) }
pub struct Cow<'a, T: ?Sized> { pub b: &'a T }
pub trait ToOwned {}

/// which type it is. That the addresses of the `schema` functions of different
/// types differ, and that that of one type is always the same, is assumed.
pub uninterp spec fn tid<T: ?Sized>() -> nat;
pub uninterp spec fn addr_of(id: nat) -> usize;
#[verifier::external_body]
pub broadcast proof fn axiom_addr(a: nat, b: nat)
    ensures #[trigger] addr_of(a) == #[trigger] addr_of(b) ==> a == b,
{}
pub broadcast group group_known { axiom_addr }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SchemaFn { a: usize }
impl SchemaFn {
    pub uninterp spec fn id(self) -> nat;
    #[verifier::external_body]
    pub fn of<T: ?Sized>() -> (r: SchemaFn)
        ensures r.id() == tid::<T>(),
    { SchemaFn { a: 0 } }
}
pub trait HasAddr: Sized {
    spec fn at(self) -> usize;
    fn addr(self) -> (r: usize)
        ensures r == self.at();
}
impl HasAddr for SchemaFn {
    open spec fn at(self) -> usize { addr_of(self.id()) }
    #[verifier::external_body]
    fn addr(self) -> usize { self.a }
}
impl HasAddr for u32 {
    open spec fn at(self) -> usize { self as usize }
    fn addr(self) -> usize { self as usize }
}

/// The types whose schemas are being built around a place, outermost first. A
/// layer which is not transparent is a level of the schema tree.
pub ghost struct Layer { pub id: Option<nat>, pub transparent: bool }
pub open spec fn node_layer(n: Node) -> Layer { Layer { id: match n.val { Some(v) => Some(v.id()), None => None }, transparent: n.transparent } }
pub open spec fn layers_of(n: Option<Node>) -> Seq<Layer>
    decreases n,
{ match n { None => Seq::empty(), Some(x) => layers_of(*x.next).push(node_layer(x)) } }
pub open spec fn layers(s: RecurseStack) -> Seq<Layer> { layers_of(s.0) }
/// the layers are chained in memory
#[verifier::external_body]
pub proof fn axiom_layers(s: RecurseStack)
    ensures layers(s).len() <= isize::MAX,
{}
pub open spec fn is_type(id: nat) -> Layer { Layer { id: Some(id), transparent: false } }
pub open spec fn is_through(id: nat) -> Layer { Layer { id: Some(id), transparent: true } }
pub open spec fn is_level() -> Layer { Layer { id: None, transparent: false } }
/// the levels of the tree these layers are
pub open spec fn levels(l: Seq<Layer>) -> nat
    decreases l.len(),
{ if l.len() == 0 { 0 } else { levels(l.drop_last()) + if l.last().transparent { 0nat } else { 1nat } } }
/// where the type is, looking from the innermost layer outwards
pub open spec fn found(l: Seq<Layer>, id: nat) -> Option<nat>
    decreases l.len(),
{ if l.len() == 0 { None } else if l.last().id == Some(id) { Some((l.len() - 1) as nat) } else { found(l.drop_last(), id) } }
/// the recurse level by which a schema just inside these layers refers to that type's
pub open spec fn level_of(l: Seq<Layer>, id: nat) -> Option<nat> {
    match found(l, id) { Some(k) => Some((levels(l) - levels(l.take(k as int))) as nat), None => None }
}
pub proof fn lemma_levels(l: Seq<Layer>, k: int)
    requires 0 <= k <= l.len(),
    ensures levels(l.take(k)) <= levels(l), levels(l) <= l.len(), l.take(l.len() as int) == l,
    decreases l.len(),
{
    assert(l.take(l.len() as int) =~= l);
    if l.len() > 0 {
        if k == l.len() { assert(l.take(k) =~= l); lemma_levels(l.drop_last(), k - 1); }
        else { lemma_levels(l.drop_last(), k); assert(l.drop_last().take(k) =~= l.take(k)); }
    }
}
pub proof fn lemma_found(l: Seq<Layer>, id: nat)
    ensures found(l, id) matches Some(k) ==> k < l.len() && l[k as int].id == Some(id) && (forall|j: int| k < j < l.len() ==> #[trigger] l[j].id != Some(id)),
        found(l, id) is None ==> forall|j: int| 0 <= j < l.len() ==> #[trigger] l[j].id != Some(id),
    decreases l.len(),
{
    if l.len() > 0 && l.last().id != Some(id) {
        lemma_found(l.drop_last(), id);
        assert forall|j: int| 0 <= j < l.len() - 1 implies l[j] == #[trigger] l.drop_last()[j] by {}
        match found(l.drop_last(), id) { Some(k) => { assert forall|j: int| k < j < l.len() implies #[trigger] l[j].id != Some(id) by { if j < l.len() - 1 { assert(l.drop_last()[j].id != Some(id)); } } } None => { assert forall|j: int| 0 <= j < l.len() implies #[trigger] l[j].id != Some(id) by { if j < l.len() - 1 { assert(l.drop_last()[j].id != Some(id)); } } } }
    }
}
pub open spec fn un(n: usize) -> int { n as int }
/// one layer at a time
pub proof fn lemma_level_step(l: Seq<Layer>, id: nat)
    requires l.len() > 0,
    ensures
        levels(l) <= l.len(),
        l.last().id == Some(id) ==> level_of(l, id) == Some(if l.last().transparent { 0nat } else { 1nat }),
        l.last().id != Some(id) ==> level_of(l, id) == (match level_of(l.drop_last(), id) { Some(n) => Some(n + if l.last().transparent { 0nat } else { 1nat }), None => None }),
{
    let d = l.drop_last();
    lemma_levels(l, l.len() as int);
    lemma_found(d, id);
    assert(l.take(l.len() - 1) =~= d);
    match found(d, id) { Some(k) => { assert(d.take(k as int) =~= l.take(k as int)); lemma_levels(d, k as int); lemma_levels(l, k as int); } None => {} }
}
/// A place in a schema tree has the schemas p above it, and the layers l around
/// it, one level for each that is not transparent. A recurse there, with the level
/// found for a type, is the schema that was begun when the layers were those
/// outside the type's layer: its own.
//@ C14
pub proof fn theorem_recurse(l: Seq<Layer>, p: Seq<Schema>, id: nat, n: usize)
    requires p.len() == levels(l), level_of(l, id) == Some(n as nat), n > 0,
    ensures found(l, id) matches Some(k) && l[k as int].id == Some(id)
        && child(p, Schema::Recurse(n)) == Some(p.take(levels(l.take(k as int)) as int + 1)) && levels(l.take(k as int)) < p.len(),
{ lemma_found(l, id); if let Some(k) = found(l, id) { lemma_levels(l, k as int); } }

// ---- a place in a tree of known schemas
/// this is the schema of the type with this id, where these layers are around it
pub uninterp spec fn known(id: nat, l: Seq<Layer>, r: Schema) -> bool;
#[verifier::external_body]
pub proof fn axiom_known<T: KnownSchema + ?Sized>(l: Seq<Layer>, r: Schema)
    ensures known(tid::<T>(), l, r) == T::is_schema(l, r),
{}
/// types which are no level of the schema tree by themselves
pub uninterp spec fn through(id: nat) -> bool;
/// the schemas p are those of the layers l
pub open spec fn place(l: Seq<Layer>, p: Seq<Schema>) -> bool
    decreases l.len(),
{
    if l.len() == 0 { p.len() == 0 }
    else if l.last().transparent { place(l.drop_last(), p) && (l.last().id matches Some(a) && through(a)) }
    else { p.len() > 0 && place(l.drop_last(), p.drop_last()) && !(p.last() is Recurse) && (l.last().id matches Some(a) ==> known(a, l.drop_last(), p.last())) }
}
pub proof fn lemma_place<T: KnownSchema + ?Sized>(l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), T::is_schema(l, r), !(r is Recurse),
    ensures place(l.push(is_type(tid::<T>())), p.push(r)), child(p, r) == Some(p.push(r)),
{
    axiom_known::<T>(l, r);
    let m = l.push(is_type(tid::<T>()));
    assert(m.drop_last() =~= l); assert(p.push(r).drop_last() =~= p);
}
pub proof fn lemma_place_level(l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), !(r is Recurse),
    ensures place(l.push(is_level()), p.push(r)), child(p, r) == Some(p.push(r)),
{ let m = l.push(is_level()); assert(m.drop_last() =~= l); assert(p.push(r).drop_last() =~= p); }
pub proof fn lemma_place_levels(l: Seq<Layer>, p: Seq<Schema>)
    requires place(l, p),
    ensures p.len() == levels(l),
    decreases l.len(),
{ if l.len() > 0 { if l.last().transparent { lemma_place_levels(l.drop_last(), p); } else { lemma_place_levels(l.drop_last(), p.drop_last()); } } }
/// the layers around a layer, and the schemas above it
pub proof fn lemma_place_take(l: Seq<Layer>, p: Seq<Schema>, k: int)
    requires place(l, p), 0 <= k <= l.len(),
    ensures p.len() == levels(l), levels(l.take(k)) <= levels(l), place(l.take(k), p.take(levels(l.take(k)) as int)),
        k < l.len() && !l[k].transparent ==> levels(l.take(k)) < p.len() && !(p[levels(l.take(k)) as int] is Recurse)
            && (l[k].id matches Some(a) ==> known(a, l.take(k), p[levels(l.take(k)) as int])),
        k < l.len() && l[k].transparent ==> (l[k].id matches Some(a) && through(a)),
    decreases l.len(),
{
    lemma_place_levels(l, p); lemma_levels(l, k);
    if k == l.len() { assert(l.take(k) =~= l); assert(p.take(p.len() as int) =~= p); }
    else {
        let d = l.drop_last(); let q = if l.last().transparent { p } else { p.drop_last() };
        lemma_place_take(d, q, k); lemma_levels(d, k); lemma_place_levels(d, q);
        assert(d.take(k) =~= l.take(k));
        assert(q.take(levels(l.take(k)) as int) =~= p.take(levels(l.take(k)) as int));
        if k == l.len() - 1 { assert(l.take(k) =~= d); } else { assert(d[k] == l[k]); }
    }
}
/// Where a type within these layers is referred to by the recurse level found for
/// it, what that leads to is a schema of the type, built where its layer was.
//@ C14
pub proof fn theorem_recurse_place<T: KnownSchema>(l: Seq<Layer>, p: Seq<Schema>, n: usize) -> (k: int)
    requires place(l, p), !through(tid::<T>()), level_of(l, tid::<T>()) == Some(n as nat),
    ensures 0 <= k < l.len(), ({ let v = levels(l.take(k)) as int; v < p.len() && !(p[v] is Recurse) && T::is_schema(l.take(k), p[v]) && place(l.take(k), p.take(v))
            && child(p, Schema::Recurse(n)) == Some(p.take(v).push(p[v])) }),
{
    let id = tid::<T>(); lemma_found(l, id);
    let k = found(l, id)->Some_0 as int; let v = levels(l.take(k)) as int;
    lemma_place_take(l, p, k); lemma_levels(l, k);
    axiom_known::<T>(l.take(k), p[v]);
    assert(p.take(v + 1) =~= p.take(v).push(p[v]));
    k
}

//@ C15
// ---- the meta-schema of FORMAT.txt
pub open spec fn unit_variant(v: EnumSchemaVariant, name: Seq<char>) -> bool { v.name@ == name && v.inner is Unit }
pub open spec fn meta_scalar(s: Schema) -> bool {
    s matches Schema::Enum(v) && v@.len() == 14
        && unit_variant(v@[0], "U8"@) && unit_variant(v@[1], "U16"@) && unit_variant(v@[2], "U32"@) && unit_variant(v@[3], "U64"@) && unit_variant(v@[4], "U128"@)
        && unit_variant(v@[5], "I8"@) && unit_variant(v@[6], "I16"@) && unit_variant(v@[7], "I32"@) && unit_variant(v@[8], "I64"@) && unit_variant(v@[9], "I128"@)
        && unit_variant(v@[10], "F32"@) && unit_variant(v@[11], "F64"@) && unit_variant(v@[12], "Char"@) && unit_variant(v@[13], "Bool"@)
}
pub open spec fn meta_seq(s: Schema) -> bool {
    s matches Schema::Struct(f) && f@.len() == 2
        && f@[0].name@ == "len"@ && (f@[0].inner matches Schema::Option(o) && *o == Schema::Scalar(ScalarType::U64))
        && f@[1].name@ == "inner"@ && f@[1].inner == Schema::Recurse(2)
}
/// a list of names with schemas
pub open spec fn meta_named(s: Schema) -> bool {
    s matches Schema::Seq(q) && q.len is None && (*q.inner matches Schema::Struct(f) && f@.len() == 2
        && f@[0].name@ == "name"@ && f@[0].inner is Str && f@[1].name@ == "inner"@ && f@[1].inner == Schema::Recurse(3))
}
pub open spec fn meta(s: Schema) -> bool {
    s matches Schema::Enum(v) && v@.len() == 10
        && v@[0].name@ == "Scalar"@ && meta_scalar(v@[0].inner)
        && unit_variant(v@[1], "Str"@) && unit_variant(v@[2], "Bytes"@) && unit_variant(v@[3], "Unit"@)
        && v@[4].name@ == "Option"@ && v@[4].inner == Schema::Recurse(1)
        && v@[5].name@ == "Seq"@ && meta_seq(v@[5].inner)
        && v@[6].name@ == "Tuple"@ && (v@[6].inner matches Schema::Seq(q) && q.len is None && *q.inner == Schema::Recurse(2))
        && v@[7].name@ == "Struct"@ && meta_named(v@[7].inner)
        && v@[8].name@ == "Enum"@ && meta_named(v@[8].inner)
        && v@[9].name@ == "Recurse"@ && v@[9].inner == Schema::Scalar(ScalarType::U64)
}
