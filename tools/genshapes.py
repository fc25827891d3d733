#!/usr/bin/env python3
"""Shapes of types for derive(KnownSchema), and the contract of the function it has
to generate for each: writes shapes/src/lib.rs and verus/contracts/72_shapes.vc."""
import sys, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# a field: a type, or a number: the schema is given to be recurse(number)
U, T, N = 'unit', 'tuple', 'named'
SH = [
    ('UnitS', 'struct', (U, None)),
    ('Empty0', 'struct', (T, [])),
    ('EmptyN', 'struct', (N, [])),
    ('New', 'struct', (T, ['A'])),
    ('NewNest', 'struct', (T, ['Vec<Option<A>>'])),
    ('NewAttr', 'struct', (T, [1])),
    ('Pair', 'struct', (T, ['A', 'B'])),
    ('Triple', 'struct', (T, ['A', 'A', 'C'])),
    ('PairAttr', 'struct', (T, ['A', 3])),
    ('One', 'struct', (N, [('a', 'A')])),
    ('Three', 'struct', (N, [('c', 'C'), ('r#type', 'A'), ('b', 'B')])),
    ('Attr', 'struct', (N, [('a', 'A'), ('up', 2), ('_b', 'B')])),
    ('Nested', 'struct', (N, [('v', 'Vec<A>'), ('o', 'Option<Box<B>>'), ('t', '(A, B, C)')])),
    ('Single', 'enum', [('Only', (U, None))]),
    ('SingleT', 'enum', [('Only', (T, ['A', 'B']))]),
    ('SingleN', 'enum', [('Only', (N, [('only', 'A')]))]),
    ('Units', 'enum', [('X', (U, None)), ('Y', (U, None)), ('r#Loop', (U, None))]),
    ('News', 'enum', [('P', (T, ['A'])), ('Q', (T, ['B'])), ('R', (T, ['A']))]),
    ('Tuples', 'enum', [('P', (T, ['A', 'B'])), ('Q', (T, ['C', 'B', 'A']))]),
    ('Structs', 'enum', [('P', (N, [('x', 'A')])), ('Q', (N, [('y', 'C'), ('k', 'B')]))]),
    ('Mixed', 'enum', [('U', (U, None)), ('E', (T, [])), ('N', (T, ['A'])), ('T', (T, ['B', 'C'])), ('S', (N, [('x', 'A'), ('z', 'C')])), ('Z', (N, [])), ('L', (U, None))]),
    ('AttrE', 'enum', [('N', (T, [1])), ('T', (T, ['A', 2])), ('S', (N, [('b', 3), ('c', 'C')]))]),
    ('WideT', 'struct', (T, ['A', 'B', 'C', 'C', 'B', 'A', 'B', 'A', 'C'])),
    ('WideN', 'struct', (N, [('f%d' % i, 'ABC'[i * i % 3]) for i in range(12)])),
    ('WideE', 'enum', [('V%d' % i, [(U, None), (T, ['A']), (T, ['B', 'C']), (N, [('g', 'C')])][i * i % 4 if i < 8 else i % 4]) for i in range(17)]),
]
def ffields(f, vis):
    k, l = f
    if k == U: return ''
    v = 'pub ' if vis else ''
    ty = lambda t: '#[schema(recurse = %d)] %sBox<A>' % (t, v) if isinstance(t, int) else v + t
    if k == T: return '(%s)' % ', '.join(ty(t) for t in l)
    return ' { %s}' % ''.join('%s%s: %s, ' % (v, n, t) if not isinstance(t, int) else '#[schema(recurse = %d)] %s%s: Box<A>, ' % (t, v, n) for n, t in l)
o = ['//! Shapes of types for `derive(KnownSchema)`, written by tools/genshapes.py, over',
     '//! fields of types A, B, C of which nothing is known. The functions which the derive',
     '//! generates for them are verified.', '#![allow(dead_code)]', 'use binschema::{KnownSchema, RecurseStack, Schema};']
for x in 'ABC': o.append('pub struct %s;\nimpl KnownSchema for %s { fn schema(s: RecurseStack) -> Schema { loop {} } }' % (x, x))
for n, k, d in SH:
    o.append('#[derive(KnownSchema)]')
    if k == 'struct': o.append('pub struct %s%s%s' % (n, ffields(d, True), '' if d[0] == N else ';'))
    else: o.append('pub enum %s { %s}' % (n, ''.join('%s%s, ' % (v, ffields(f, False)) for v, f in d)))
open(R + '/shapes/src/lib.rs', 'w').write('\n'.join(o) + '\n')
def lit(n): return '"%s"@' % n.replace('r#', '')
def inner(t, l, e):
    return '%s == Schema::Recurse(%d)' % (e, t) if isinstance(t, int) else '<%s as KnownSchema>::is_schema(%s, %s)' % (t, l, e)
def fields(f, l, e, variant):
    k, d = f
    if k == U or (k == T and not d): return '%s is Unit' % e
    if k == T and len(d) == 1: return inner(d[0], l, e)
    if variant: l += '.push(is_level())'
    if k == T: c = ['(%s) is Tuple' % e, '(%s)->Tuple_0@.len() == %d' % (e, len(d))] + [inner(t, l, '(%s)->Tuple_0@[%d]' % (e, i)) for i, t in enumerate(d)]
    else: c = ['(%s) is Struct' % e, '(%s)->Struct_0@.len() == %d' % (e, len(d))] + [x for i, (n, t) in enumerate(d) for x in ('(%s)->Struct_0@[%d].name@ == %s' % (e, i, lit(n)), inner(t, l, '(%s)->Struct_0@[%d].inner' % (e, i)))]
    return ' && '.join(c)
v = ['# written by tools/genshapes.py: what derive(KnownSchema) has to generate for each shape of a type']
for x in 'ABC':
    v += ['@implextra shapes::%s as KnownSchema::' % x, '    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { is_%s(l, r) }' % x.lower(),
          '@fn shapes::%s as KnownSchema::schema (s) -> r' % x, '@mode extern']
for n, k, d in SH:
    through = k == 'struct' and d[0] == T and len(d[1]) == 1
    l = 'l.push(%s(tid::<Self>()))' % ('is_through' if through else 'is_type')
    if k == 'struct': b = fields(d, l, 'r', False)
    else: b = ' && '.join(['r is Enum', 'r->Enum_0@.len() == %d' % len(d)] + [x for i, (vn, f) in enumerate(d) for x in ('r->Enum_0@[%d].name@ == %s' % (i, lit(vn)), fields(f, l, 'r->Enum_0@[%d].inner' % i, True))])
    v += ['@implextra shapes::%s as KnownSchema::' % n,
          '    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => %s } }' % b,
          '@fn shapes::%s as KnownSchema::schema (parent_stack) -> r' % n, '@tag C14']
open(R + '/verus/contracts/72_shapes.vc', 'w').write('\n'.join(v) + '\n')

def plain(f): return f[0] == U or all((x if f[0] == T else x[1]) in ('A', 'B', 'C') for x in f[1])
fs = [(n, k, d) for n, k, d in SH if (k == 'struct' and plain(d) and not (d[0] == T and len(d[1]) == 1)) or (k == 'enum' and all(plain(f) for _, f in d))]
s = ["""//@file C14
// ======== the types derive(KnownSchema) is applied to in shapes/ (written by
// tools/genshapes.py). Of the types A, B, C of their fields nothing is known but that
// their values conform to their schemas.
/// A type whose values conform to its known schema, wherever in a tree of schemas.
pub trait Derived: KnownSchema {
    spec fn gv(&self) -> GV;
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
        requires place(l, p), Self::is_schema(l, r),
        ensures child(p, r) is Some, conf(self.gv(), child(p, r)->Some_0);
}"""]
for x in 'ABC':
    y = x.lower()
    s.append("""pub uninterp spec fn is_%s(l: Seq<Layer>, r: Schema) -> bool;
pub uninterp spec fn gv_%s(x: crate::shapes::%s) -> GV;
impl Derived for crate::shapes::%s {
    open spec fn gv(&self) -> GV { gv_%s(*self) }
    #[verifier::external_body]
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {}
}""" % (y, y, x, x, y))
s.append("""/// these are levels of the tree
#[verifier::external_body]
pub proof fn axiom_through()
    ensures %s,
{}""" % ', '.join('!through(tid::<crate::shapes::%s>())' % n for n, k, d in fs))
ex = lambda f, nm, i: ('%s%d' % ('x', i) if f[0] == T else 'x_%s' % f[1][i][0].replace('r#', ''))
def gvf(f, xs):
    k, d = f
    if k == U or (k == T and not d): return 'GV::Unit'
    if k == T and len(d) == 1: return '%s.gv()' % xs[0]
    es = 'seq![%s]' % ', '.join(x + '.gv()' for x in xs) if xs else 'Seq::<GV>::empty()'
    if k == T: return 'GV::Tuple(%s)' % es
    return 'GV::Struct(%s, %s)' % ('seq![%s]' % ', '.join(lit(n) for n, _ in d) if d else 'Seq::<Seq<char>>::empty()', es)
def prf(f, xs, c, variant):
    """that the fields xs conform to the schema c below pp"""
    k, d = f; m, pp = 'm', 'pp'
    if k == U or (k == T and not d): return 'assert(child(%s, %s) == Some(%s.push(Schema::Unit))); assert(conf(GV::Unit, %s.push(Schema::Unit)));' % (pp, c, pp, pp)
    if k == T and len(d) == 1: return '%s.lemma_conforms(%s, %s, %s);' % (xs[0], m, pp, c)
    a = 'Tuple' if k == T else 'Struct'
    o = 'lemma_place_level(%s, %s, %s); let m2 = %s.push(is_level()); let p2 = %s.push(%s);' % (m, pp, c, m, pp, c) if variant else 'let m2 = m; let p2 = pp;'
    o += ' let f = (%s)->%s_0;' % (c, a)
    o += ''.join(' %s.lemma_conforms(m2, p2, f@[%d]%s);' % (x, i, '' if k == T else '.inner') for i, x in enumerate(xs))
    if xs:
        o += ' let es = seq![%s];' % ', '.join(x + '.gv()' for x in xs)
        if k == N: o += ' let ns = seq![%s];' % ', '.join(lit(n) for n, _ in d)
        o += ' assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies %schild(p2, f@[i]%s) is Some && conf(es[i], child(p2, f@[i]%s)->Some_0) by { %s }' % (
            '' if k == T else 'ns[i] == f@[i].name@ && ', '' if k == T else '.inner', '' if k == T else '.inner', ' else '.join('if i == %d {}' % i for i in range(len(xs))))
    else:
        o += ' assert(Seq::<GV>::empty().len() == 0);'
    return o + ' assert(conf(%s, p2));' % gvf(f, xs)
for n, k, d in fs:
    q = 'crate::shapes::' + n
    if k == 'struct':
        acc = [] if d[0] == U else ['self.%s' % (i if d[0] == T else d[1][i][0]) for i in range(len(d[1]))]
        gv = gvf(d, acc); body = prf(d, [a.replace('self', 'x') for a in acc], 'r', False)
        if d[0] == U or not d[1] and d[0] == T: body = 'assert(conf(GV::Unit, pp));'
    else:
        arms, parms = [], []
        for i, (v, f) in enumerate(d):
            v = '%s::%s' % (q, v)
            if f[0] == U: pat, xs = v, []
            elif f[0] == T: xs = ['x%d' % j for j in range(len(f[1]))]; pat = '%s(%s)' % (v, ', '.join(xs))
            else: xs = ['y%d' % j for j in range(len(f[1]))]; pat = '%s { %s }' % (v, ', '.join('%s: %s' % (a, b) for (a, _), b in zip(f[1], xs)))
            arms.append('%s => GV::Enum(%d, %s, Box::new(%s))' % (pat, i, lit(d[i][0]), gvf(f, xs)))
            parms.append('            %s => { %s }' % (pat, prf(f, xs, 'vs@[%d].inner' % i, True)))
        gv = 'match self { %s }' % ', '.join(arms)
        body = 'let vs = r->Enum_0;\n        match x {\n%s\n        }' % ',\n'.join(parms)
    s.append("""//@ C14
pub proof fn lemma_of_%s(x: &%s, l: Seq<Layer>, p: Seq<Schema>, r: Schema)
    requires place(l, p), <%s as KnownSchema>::is_schema(l, r), !(r is Recurse),
    ensures child(p, r) == Some(p.push(r)), conf(x.gv(), p.push(r)),
{
        lemma_place::<%s>(l, p, r); let m = l.push(is_type(tid::<%s>())); let pp = p.push(r);
        %s
}
impl Derived for %s {
    open spec fn gv(&self) -> GV { %s }
    proof fn lemma_conforms(&self, l: Seq<Layer>, p: Seq<Schema>, r: Schema) {
        if r is Recurse {
            axiom_through(); let n = r->Recurse_0; let k = theorem_recurse_place::<%s>(l, p, n); let v = levels(l.take(k)) as int;
            lemma_of_%s(self, l.take(k), p.take(v), p[v]);
        } else { lemma_of_%s(self, l, p, r); }
    }
}""" % (n, q, q, q, q, body, q, gv, q, n, n))
open(R + '/verus/spec_91_shapes.rs', 'w').write('\n'.join(s) + '\n')
