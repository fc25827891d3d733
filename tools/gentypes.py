#!/usr/bin/env python3
"""writes typed/src/gen.rs: groups of mutually recursive derived types for C14 (fixed seed; the file is committed)"""
import random, os
R = random.Random(20261119)
OUT = []
DEFS = []      # id -> rust expr of its definition Desc
ROOTS = []     # (name, can deserialize)
FIELDS = ['a', 'b', 'c', 'x', 'next', 'kids', 'left', 'right', 'r#type', 'r#match', 'r#loop', 'v_1', 'other', 'inner', 'tail', 'up', 'r#fn', 'é']
VARS = ['Leaf', 'Node', 'Nil', 'Cons', 'P', 'Q', 'r#move', 'Way', 'Z9', 'r#Struct', 'Deep', 'r#in']
PRIMS_ORD = ['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128', 'usize', 'isize', 'bool', 'char', 'String', '()']

def unraw(s): return s[2:] if s.startswith('r#') else s

class Group:
    def __init__(self, g):
        self.g = g
        self.n = R.choice([1, 1, 2, 2, 3, 3, 4, 5])
        self.ord = R.random() < 0.6
        self.ser_only = R.random() < 0.15
        self.ids = [len(DEFS) + i for i in range(self.n)]
        self.names = ['G%dT%d' % (g, i) for i in range(self.n)]
        DEFS.extend([None] * self.n)

    def leaf(self):
        return R.choice(PRIMS_ORD)

    def recur(self, i):
        """a type expression which mentions some type of the group, guarded"""
        t = R.choice(self.names)
        k = self.leaf_key()
        opts = [
            'Option<Box<%s>>' % t, 'Vec<%s>' % t, 'Option<Box<Option<Box<%s>>>>' % t, 'Vec<Option<%s>>' % t, 'Vec<Vec<%s>>' % t,
            'std::collections::VecDeque<%s>' % t, 'std::collections::LinkedList<Box<%s>>' % t,
            'std::collections::BTreeMap<%s, %s>' % (k, t), 'std::collections::BTreeMap<%s, Vec<Box<%s>>>' % (k, t),
            'Vec<(%s, %s)>' % (k, t), 'Option<Box<(%s, %s, %s)>>' % (t, k, t), '[Option<Box<%s>>; %d]' % (t, R.choice([0, 1, 2, 3])),
            '[Vec<%s>; 2]' % t, '(Option<Box<%s>>,)' % t, '(%s, Vec<%s>)' % (k, t), 'Vec<(%s,)>' % t,
            'Option<Box<[%s; 1]>>' % t, 'Vec<Box<Box<%s>>>' % t, 'Option<Box<Vec<(Option<Box<%s>>, %s)>>>' % (t, k),
            'std::collections::BTreeMap<%s, std::collections::BTreeMap<%s, %s>>' % (k, k, t), 'Vec<std::borrow::Cow<\'static, %s>>' % t,
            'Option<Box<std::borrow::Cow<\'static, %s>>>' % t, 'Option<Box<(%s, Option<Box<%s>>)>>' % (k, R.choice(self.names)),
        ]
        if self.ord:
            opts += ['std::collections::BTreeSet<%s>' % t, 'std::collections::BTreeMap<%s, u8>' % t, 'std::collections::BTreeMap<%s, %s>' % (t, R.choice(self.names)), 'std::collections::BTreeMap<(u8, %s), Vec<%s>>' % (t, t)]
        else:
            opts += ['std::collections::HashMap<%s, %s>' % (k, t), 'std::ops::Bound<Box<%s>>' % t, 'std::ops::Range<Option<Box<%s>>>' % t, 'std::ops::RangeInclusive<Vec<%s>>' % t,
                     'Vec<std::ops::Bound<%s>>' % t, 'std::collections::HashMap<(%s, u8), Option<%s>>' % (k, t), 'std::ops::Bound<Vec<std::ops::Range<Option<Box<%s>>>>>' % t]
        if self.ser_only:
            opts += ['Option<&\'static %s>' % t, 'Vec<&\'static %s>' % t, 'Option<&\'static Box<(u8, %s)>>' % t] * 3
        return R.choice(opts)

    def leaf_key(self): return R.choice(['u8', 'String', 'u32', 'char', '()', 'i16'])

    def forward(self, i):
        t = R.choice(self.names[i + 1:]) if i + 1 < self.n else None
        if t is None: return self.leaf()
        return R.choice(['%s', 'Box<%s>', 'Option<%s>', '(%s, u8)', '[%s; 2]', 'Vec<%s>', '(u8, Box<%s>)']) % t

    def free(self, i):
        """any reference to the group, unguarded (in a variant that is not the base one)"""
        t = R.choice(self.names)
        return R.choice(['Box<%s>', 'Box<(%s, u8)>', 'Box<[%s; 2]>', '(Box<%s>,)', 'Box<Box<%s>>']) % t

    def ty(self, i, variant):
        x = R.random()
        if x < 0.3: return self.leaf()
        if x < 0.68: return self.recur(i)
        if x < 0.85 or not variant: return self.forward(i)
        return self.free(i)

    def fields(self, i, variant, base, lo=0, hi=4):
        return [self.leaf() if base else self.ty(i, variant) for _ in range(R.randint(lo, hi))]

    def emit(self):
        der = 'Debug, Clone, PartialEq, Serialize, KnownSchema' + ('' if self.ser_only else ', Deserialize') + (', Eq, PartialOrd, Ord, Hash' if self.ord else '')
        for i, (id, nm) in enumerate(zip(self.ids, self.names)):
            kind = R.choice(['struct', 'struct', 'struct', 'newtype', 'tuple', 'enum', 'enum', 'enum', 'unit', 'empty', 'zero']) if self.n > 1 else R.choice(['struct', 'newtype', 'tuple', 'enum', 'enum'])
            if i == 0 and kind in ('unit', 'empty', 'zero'): kind = 'enum'
            o = ['#[derive(%s)]' % der]
            if kind in ('struct', 'empty'):
                tys = [] if kind == 'empty' else self.fields(i, False, False, 1, 5)
                if kind == 'struct' and i == 0: tys.append(self.recur(i))
                ns = R.sample(FIELDS, len(tys))
                o.append('pub struct %s { %s }' % (nm, ' '.join('%s: %s,' % x for x in zip(ns, tys))))
                DEFS[id] = 'st(vec![%s])' % ', '.join('("%s", <%s as Rec>::desc())' % (unraw(n), t) for n, t in zip(ns, tys))
                gen = '%s { %s }' % (nm, ' '.join('%s: Rec::gen(r, b),' % n for n in ns))
                rv = 'RV::Struct(vec![%s])' % ', '.join('self.%s.rv()' % n for n in ns)
            elif kind == 'newtype':
                t = self.recur(i) if R.random() < 0.8 else self.forward(i)
                o.append('pub struct %s(%s);' % (nm, t))
                DEFS[id] = '<%s as Rec>::desc()' % t
                gen = '%s(Rec::gen(r, b))' % nm
                rv = 'self.0.rv()'
            elif kind == 'tuple':
                tys = self.fields(i, False, False, 2, 4)
                if i == 0: tys.append(self.recur(i))
                o.append('pub struct %s(%s);' % (nm, ', '.join(tys)))
                DEFS[id] = 'Desc::Tup(vec![%s])' % ', '.join('<%s as Rec>::desc()' % t for t in tys)
                gen = '%s(%s)' % (nm, ', '.join('Rec::gen(r, b)' for t in tys))
                rv = 'RV::Tuple(vec![%s])' % ', '.join('self.%d.rv()' % j for j in range(len(tys)))
            elif kind == 'unit':
                o.append('pub struct %s;' % nm); DEFS[id] = 'Desc::Leaf(Schema::Unit)'; gen = nm; rv = 'RV::Unit'
            elif kind == 'zero':
                o.append('pub struct %s();' % nm); DEFS[id] = 'Desc::Leaf(Schema::Unit)'; gen = nm + '()'; rv = 'RV::Unit'
            else:
                nv = R.randint(2, 6)
                vs = []; ds = []; gs = []; rs = []
                names = R.sample(VARS, nv)
                basepos = R.randrange(nv)
                for j, v in enumerate(names):
                    form = R.choice(['unit', 'newtype', 'newtype', 'tuple', 'struct', 'struct', 'zero', 'none'])
                    base = j == basepos
                    if form == 'unit':
                        vs.append(v); ds.append('Desc::Leaf(Schema::Unit)'); gs.append('%s::%s' % (nm, v)); rs.append(('%s::%s' % (nm, v), 'RV::Unit'))
                    elif form == 'zero':
                        vs.append(v + '()'); ds.append('Desc::Leaf(Schema::Unit)'); gs.append('%s::%s()' % (nm, v)); rs.append(('%s::%s()' % (nm, v), 'RV::Unit'))
                    elif form == 'newtype':
                        t = self.fields(i, True, base, 1, 1)[0]
                        vs.append('%s(%s)' % (v, t)); ds.append('<%s as Rec>::desc()' % t); gs.append('%s::%s(Rec::gen(r, b))' % (nm, v)); rs.append(('%s::%s(x)' % (nm, v), 'x.rv()'))
                    elif form == 'tuple':
                        ts = self.fields(i, True, base, 2, 4)
                        vs.append('%s(%s)' % (v, ', '.join(ts))); ds.append('Desc::Tup(vec![%s])' % ', '.join('<%s as Rec>::desc()' % t for t in ts))
                        gs.append('%s::%s(%s)' % (nm, v, ', '.join('Rec::gen(r, b)' for _ in ts)))
                        rs.append(('%s::%s(%s)' % (nm, v, ', '.join('x%d' % k for k in range(len(ts)))), 'RV::Tuple(vec![%s])' % ', '.join('x%d.rv()' % k for k in range(len(ts)))))
                    else:
                        ts = [] if form == 'none' else self.fields(i, True, base, 1, 4)
                        ns = R.sample(FIELDS, len(ts))
                        vs.append('%s { %s }' % (v, ' '.join('%s: %s,' % x for x in zip(ns, ts))))
                        ds.append('st(vec![%s])' % ', '.join('("%s", <%s as Rec>::desc())' % (unraw(n), t) for n, t in zip(ns, ts)))
                        gs.append('%s::%s { %s }' % (nm, v, ' '.join('%s: Rec::gen(r, b),' % n for n in ns)))
                        rs.append(('%s::%s { %s }' % (nm, v, ', '.join('%s: x%d' % (n, k) for k, n in enumerate(ns))), 'RV::Struct(vec![%s])' % ', '.join('x%d.rv()' % k for k in range(len(ns)))))
                o.append('pub enum %s { %s }' % (nm, ', '.join(vs)))
                DEFS[id] = 'Desc::Enum(vec![%s])' % ', '.join('("%s", %s)' % (unraw(v), d) for v, d in zip(names, ds))
                gen = 'match (if *b <= 0 { %d } else { r.below(%d) }) { %s }' % (basepos, nv, ' '.join('%s => %s,' % (j if j < nv - 1 else '_', g) for j, g in enumerate(gs)))
                rv = 'match self { %s }' % ' '.join('%s => RV::Enum(%d, Box::new(%s)),' % (p, j, e) for j, (p, e) in enumerate(rs))
            OUT.extend(o)
            OUT.append('impl Rec for %s {\n    fn desc() -> Desc { Desc::Named(%d) }\n    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; %s }\n    fn rv(&self) -> RV { %s }\n}' % (nm, id, gen, rv))
            ROOTS.append((nm, not self.ser_only))

for g in range(60): Group(g).emit()
print_to = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'typed/src/gen.rs')
with open(print_to, 'w') as f:
    f.write('// written by tools/gentypes.py\n#![allow(unused, non_camel_case_types)]\nuse crate::derived::*;\nuse crate::refs::RV;\nuse crate::rng::Rng;\nuse binschema::{KnownSchema, Schema};\nuse serde::{Deserialize, Serialize};\n\n')
    f.write('\n'.join(OUT))
    f.write('\n\npub const NAMED: usize = %d;\npub fn def(id: usize) -> Desc {\n    match id {\n%s\n        _ => hand(id),\n    }\n}\n' % (len(DEFS), '\n'.join('        %d => %s,' % (i, d) for i, d in enumerate(DEFS))))
    f.write('\npub fn roots() -> Vec<(&\'static str, Test)> {\n    vec![\n%s\n    ]\n}\n' % '\n'.join('        ("%s", %s::<%s>),' % (n, 'both' if d else 'ser_only', n) for n, d in ROOTS))
