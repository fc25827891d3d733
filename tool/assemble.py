"""Contract files, and assembly of the extracted code with them into one crate
for the verifier. Every line of the result is attributed to what it states."""
import os, re, glob

class Clause:
    def __init__(self, kind, tags, text, where, label=None):
        self.kind, self.tags, self.text, self.where, self.label = kind, tags, text, where, label

class Loop:
    def __init__(self):
        self.clauses = []; self.before = ''; self.start = ''; self.end = ''; self.after = ''

class Contract:
    def __init__(self, key, params, ret, where):
        self.key, self.params, self.ret, self.where = key, params, ret, where
        self.clauses = []; self.pre = ''; self.locals = None; self.attrs = []
        self.loops = {}; self.tags = []; self.mode = 'verify'; self.isolate = False; self.opt = False; self.bodyend = ''; self.split = []

def parse_tags(s):
    return [t for t in re.split(r'[ ,]+', s.strip()) if t]

def expand_for(text):
    """`@for X,Y in a,b; c,d` ... `@endfor`: the text for every tuple, `$X` replaced."""
    out, lines, i = [], text.split('\n'), 0
    while i < len(lines):
        m = re.match(r'@for\s+(\S+)\s+in\s+(.*)$', lines[i])
        if m:
            names = m.group(1).split(',')
            spec = m.group(2)
            j = i + 1
            while spec.rstrip().endswith('\\'):
                spec = spec.rstrip()[:-1] + lines[j]; j += 1
            body = []
            while not lines[j].startswith('@endfor'):
                body.append(lines[j]); j += 1
            for tup in spec.split(';'):
                vals = [v.strip() for v in tup.split('|')]
                if vals == ['']: continue
                assert len(vals) == len(names), (names, vals)
                for b in body:
                    for n, v in zip(names, vals):
                        b = b.replace('$' + n, v)
                    out.append(b)
            i = j + 1
        else:
            out.append(lines[i]); i += 1
    return '\n'.join(out)

def parse_contracts(files):
    cs = {}
    extra = {}
    for f in files:
        text = expand_for(open(f).read())
        cur = None; loop = None; sink = None
        macros = {}
        def flush():
            pass
        items = []
        for ln, line in enumerate(text.split('\n'), 1):
            if line.startswith('#'): continue
            m = re.match(r'@(\w+)\s*(.*)$', line)
            if m: items.append([m.group(1), m.group(2), ln])
            elif items and line.strip(): items[-1][1] += '\n' + line
        for kw, rest, ln in items:
            where = '%s:%d' % (os.path.basename(f), ln)
            if kw == 'fn':
                m = re.match(r'(.+?)\s*\(([^()]*)\)\s*(?:->\s*(\w+))?\s*$', rest)
                assert m, (where, rest)
                cur = Contract(m.group(1).strip(), [p.strip() for p in m.group(2).split(',') if p.strip()], m.group(3) or 'r', where)
                cs[cur.key] = cur; loop = None
                continue
            if kw == 'more':
                cur = cs[rest.strip()]; loop = None
                continue
            if kw == 'implextra':
                k, body = rest.split('\n', 1)
                extra[k.strip()] = body
                continue
            if kw in ('req', 'ens', 'inv', 'lens', 'dec', 'ldec', 'invx'):
                m = re.match(r'((?:C\d\d[ ,]*)*)(?:<(\w+)>)?\s*:\s*(.*)$', rest, re.S)
                if m: tags, label, body = parse_tags(m.group(1)), m.group(2), m.group(3)
                else: tags, label, body = [], None, rest
                c = Clause(kw, tags, body.strip().rstrip(','), where, label)
                if kw in ('inv', 'lens', 'ldec', 'invx'): loop.clauses.append(c)
                else: cur.clauses.append(c)
            elif kw == 'tag': cur.tags = parse_tags(rest)
            elif kw == 'mode': cur.mode = rest.strip()
            elif kw == 'optional': cur.opt = True
            elif kw == 'split': cur.split.append(rest.strip())
            elif kw == 'isolate': cur.isolate = True
            elif kw == 'locals': cur.locals = [x.strip() for x in rest.split(',') if x.strip()]
            elif kw == 'attr': cur.attrs.append(rest.strip())
            elif kw == 'pre': cur.pre += rest + '\n'
            elif kw == 'bodyend': cur.bodyend += rest + '\n'
            elif kw == 'loop':
                loop = cur.loops.setdefault(int(rest.strip()), Loop())
            elif kw == 'lbefore': loop.before += rest + '\n'
            elif kw == 'lstart': loop.start += rest + '\n'
            elif kw == 'lend': loop.end += rest + '\n'
            elif kw == 'lafter': loop.after += rest + '\n'
            else: raise Exception('%s: unknown @%s' % (where, kw))
    return cs, extra

def rename(text, mapping):
    text = re.sub(r'(?<!\*)\b(final|old)\((\w+)\)', r'(*\1(\2))', text)
    if not mapping: return text
    return re.sub(r'(?<![\w.$])(' + '|'.join(re.escape(k) for k in mapping) + r')(?!\w)', lambda m: mapping[m.group(1)], text)

def split_cases(lines, key, c, mp, canary):
    """`@split`: the body of `key` is verified once for each case, in a copy that
    requires the case as well (the cases are made disjoint, and the last is `none
    of the others`, so that there is no input outside them); the function that
    callers see keeps its contract and is not verified a second time."""
    a = next(i for i, (l, inf) in enumerate(lines) if inf == ('fnattr', key))
    b = next(i for i in range(a, len(lines)) if re.search(r'\bfn\s+\w+', lines[i][0]) and lines[i][1][0] != 'fnattr')
    ind = re.match(r' *', lines[b][0]).group(0)
    e = next(i for i in range(b + 1, len(lines)) if lines[i][1] == ('body', key) and lines[i][0].rstrip() == ind + '}')
    part = lines[a:e + 1]
    cases = [rename(x, mp) for x in c.split]
    conds, no = [], []
    for x in cases:
        conds.append(' && '.join(no + ['(%s)' % x])); no.append('!(%s)' % x)
    conds.append(' && '.join(no))
    out = lines[:a] + [(part[0][0] + ' #[verifier::external_body]', part[0][1])]
    out += [(l, inf) for l, inf in part[1:] if inf != ('canary', key)]
    for k, cond in enumerate(conds):
        has_req = any(inf[0] == 'glue' and l == 'requires' for l, inf in part)
        named = False
        for l, inf in part:
            if not named and inf[0] != 'fnattr' and re.search(r'\bfn\s+\w+', l):
                l = re.sub(r'\bfn(\s+)(\w+)', r'fn\1\2__case%d' % k, l, count=1); named = True
            elif inf[0] == 'glue' and l == 'ensures' and not has_req:
                out.append(('requires ' + cond + ',', ('glue', key)))
                has_req = True
            out.append((l, inf))
            if inf[0] == 'glue' and l in ('requires', 'invariant'):
                out.append((cond + ',', ('glue', key)))
    return out + lines[e + 1:]

class Out:
    def __init__(self): self.lines = []; self.info = []
    def add(self, text, info=None):
        for l in text.split('\n'):
            self.lines.append(l); self.info.append(info)

HEAD = '''#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, non_camel_case_types, unused_parens, unused_braces, unreachable_code, unused_labels, non_snake_case, private_interfaces, private_bounds)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
'''
MODUSE = '''use vstd::prelude::*; use crate::vx::{self, le, le_val, Read, Write, Bytes, SliceOps, VecGrow, ToLe, LeBytes, IntVal, VxEq}; use crate::vs::*; use vstd::utf8::*; use vstd::arithmetic::power2::*; broadcast use crate::vs::group_stack;'''

def assemble(extracted, report, prelude, specs, contracts, extra, demote=(), canary=None):
    """-> Out. `demote`: keys whose bodies are not verified this time (their
    contracts then count as assumed)."""
    fninfo = {}
    for l in report.split('\n'):
        p = l.split('\t')
        if p[0] == 'FN':
            fninfo[p[1]] = dict(mode=p[2], params=[x for x in p[3].split(',') if x], nloops=int(p[4]), inlined=p[5] if len(p) > 5 else '', locals=[x for x in (p[6] if len(p) > 6 else '').split(',') if x])
    o = Out()
    o.add(HEAD.rstrip('\n'), ('head',))
    o.add(prelude, ('prelude',))
    o.add('pub mod vs {', ('spec',))
    o.add('use vstd::prelude::*; use vstd::utf8::*; use crate::vx::{self, *}; use vstd::arithmetic::power2::*; use vstd::arithmetic::div_mod::*; use vstd::arithmetic::mul::*; #[allow(unused)] use crate::*;', ('spec',))
    for name, s in specs:
        for i, l in enumerate(s.split('\n'), 1):
            o.add(l, ('spec', name, i))
    o.add('}', ('spec',))
    L = extracted.split('\n')
    curkey = None
    i = 0
    pend_after = []  # (brace depth target, text)
    res = []  # list of [line, info]
    def mapping(c, fi):
        mp = {}
        if len(fi['params']) == len(c.params):
            for a, b in zip(c.params, fi['params']):
                if a != b: mp[a] = b
        if c.locals and fi['locals'] and len(c.locals) == len(fi['locals']):
            for a, b in zip(c.locals, fi['locals']):
                if a != b and a not in fi['locals'] and a not in fi['params']: mp.setdefault(a, b)
        return mp
    for line in L:
        m = re.search(r'__vx_mod ! \("([^"]*)"\) ;', line)
        if m:
            res.append([MODUSE, ('glue',)]); continue
        m = re.search(r'__vx_type ! \("([^"]*)"\) ;', line)
        if m:
            continue
        m = re.search(r'__vx_implextra ! \("([^"]*)"\) ;', line)
        if m:
            k = m.group(1)
            if k in extra:
                for l in extra[k].split('\n'): res.append([l, ('glue',)])
            continue
        m = re.search(r'__vx_fn ! \("([^"]*)"\) ;', line)
        if m:
            curkey = m.group(1)
            c = contracts.get(curkey)
            pre = line[:m.start()].replace('# [verifier :: external_body]', '#[verifier::external_body]')
            s = pre.strip()
            if curkey in demote and 'external_body' not in s: s += ' #[verifier::external_body]'
            if c and curkey not in demote:
                if fninfo.get(curkey, {}).get('nloops') and not c.isolate: s += ' #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]'
                s += ' ' + ' '.join(c.attrs)
            res.append([s, ('fnattr', curkey)])
            rest = line[m.end():]
            if rest.strip(): res.append([rest, ('body', curkey)])
            continue
        m = re.search(r'__vx_t?contract ! \("([^"]*)"\) ;', line)
        if m:
            key = m.group(1); c = contracts.get(key)
            istrait = '__vx_tcontract' in line
            # the previous lines end with `{`
            if istrait: res.append([line[:m.start()], ('glue', key)])
            if not istrait:
                j = len(res) - 1
                while not res[j][0].strip(): j -= 1
                assert res[j][0].rstrip().endswith('{'), res[j]
                res[j][0] = res[j][0].rstrip()[:-1]
            fi = fninfo.get(key, dict(params=[], locals=[], nloops=0))
            if c:
                mp = mapping(c, fi)
                def emit(kind, kws):
                    first = True
                    for cl in c.clauses:
                        if cl.kind != kind: continue
                        if first: res.append([kws, ('glue', key)]); first = False
                        t = rename(cl.text, mp)
                        lines = t.split('\n')
                        lines[-1] += ','
                        for l in lines: res.append([l, ('clause', key, kind, tuple(cl.tags), cl.label, cl.where)])
                emit('req', 'requires'); emit('ens', 'ensures')
                if key not in demote and c.mode != 'extern': emit('dec', 'decreases')
                # the return name
                for j in range(len(res) - 1, -1, -1):
                    if '__VXRET' in res[j][0]:
                        res[j][0] = res[j][0].replace('__VXRET', c.ret); break
            if istrait:
                res.append([';', ('glue', key)])
            else:
                res.append(['{', ('glue', key)])
                if c and key not in demote and c.mode != 'extern':
                    for l in rename(c.pre, mapping(c, fi)).split('\n'):
                        if l.strip(): res.append([l, ('proof', key)])
                if canary == key:
                    res.append(['proof { assert(false); }', ('canary', key)])
            tail = line[m.end():]
            if istrait: tail = tail.replace(';', '', 1)
            if tail.strip(): res.append([tail, ('body', key)])
            continue
        m = re.search(r'__vx_loop ! \("([^"]*)" , (\d+)\) ;', line)
        if m:
            key, n = m.group(1), int(m.group(2)); c = contracts.get(key)
            if c and n in c.loops and key not in demote:
                fi = fninfo[key]; mp = mapping(c, fi); lp = c.loops[n]
                j = len(res) - 1
                while not res[j][0].strip(): j -= 1
                assert res[j][0].rstrip().endswith('{'), res[j]
                res[j][0] = res[j][0].rstrip()[:-1]
                ind = re.match(r' *', res[j][0]).group(0)
                # text before the loop statement: back to its first line
                if lp.before:
                    q = j
                    while not re.match(r'\s*(while|loop)\b', res[q][0]): q -= 1
                    for z, l in enumerate(rename(lp.before, mp).rstrip('\n').split('\n')):
                        res.insert(q + z, [l, ('proof', key)])
                for kind, kws in (('invx', 'invariant_except_break'), ('inv', 'invariant'), ('lens', 'ensures'), ('ldec', 'decreases')):
                    first = True
                    for cl in lp.clauses:
                        if cl.kind != kind: continue
                        if first: res.append([kws, ('glue', key)]); first = False
                        ls = rename(cl.text, mp).split('\n'); ls[-1] += ','
                        for l in ls: res.append([l, ('clause', key, kind, tuple(cl.tags), cl.label, cl.where)])
                res.append([ind + '{', ('glue', key)])
                for l in rename(lp.start, mp).rstrip('\n').split('\n'):
                    if l.strip(): res.append([l, ('proof', key)])
            tail = line[m.end():]
            if tail.strip(): res.append([tail, ('body', key)])
            continue
        m = re.search(r'__vx_loopend ! \("([^"]*)" , (\d+)\) ;', line)
        if m:
            key, n = m.group(1), int(m.group(2)); c = contracts.get(key)
            if c and n in c.loops and key not in demote:
                fi = fninfo[key]; mp = mapping(c, fi)
                for l in rename(c.loops[n].end, mp).rstrip('\n').split('\n'):
                    if l.strip(): res.append([l, ('proof', key)])
            res.append(['//LOOPEND', ('loopend', key, n)])
            continue
        res.append([line, ('body', curkey) if curkey else ('glue',)])
    # text after loops: the first line after LOOPEND that closes it
    out2 = []; want = []
    for l, inf in res:
        if l == '//LOOPEND':
            c = contracts.get(inf[1])
            if c and inf[2] in c.loops and c.loops[inf[2]].after and inf[1] not in demote:
                mp = mapping(c, fninfo[inf[1]])
                want.append((inf[1], rename(c.loops[inf[2]].after, mp)))
            else: want.append((inf[1], ''))
            continue
        out2.append((l, inf))
        if want and l.strip().startswith('}'):
            k, t = want.pop()
            for x in t.rstrip('\n').split('\n'):
                if x.strip(): out2.append((x, ('proof', k)))
    for key, c in contracts.items():
        if c.split and c.mode != 'extern' and key not in demote and key in fninfo:
            out2 = split_cases(out2, key, c, mapping(c, fninfo[key]), canary)
    for l, inf in out2:
        o.add(l.replace('__VXRET', 'r'), inf)
    o.add('}\nfn main() {}', ('head',))
    return o, fninfo
