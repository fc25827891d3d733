#!/usr/bin/env python3
"""check one property: extract, verify (Verus), search for a failing input.

usage: driver.py PROPERTY      (VERIF_TIER, VERIF_SEED from the environment)
exit 0: held. exit 1 and a VIOLATION line: broken. See DESIGN.md.
"""
import os, sys, json, re, glob, subprocess, time, threading, hashlib, shutil, signal

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
import assemble as asm
import config

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTFLAGS='', RUST_BACKTRACE='0')
ENV.pop('CARGO_TARGET_DIR', None)

def log(*a): print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

def run(cmd, cwd=None, env=None, timeout=None, **kw):
    """(rc, out, err); rc None when it ran out of time"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return None, o, e

# ---------------------------------------------------------------- extraction
def group_of(fname):
    for g, d in config.GROUPS.items():
        if fname in d['specs'] or fname in d['contracts']: return g
    return None

def scope(P):
    """the parts of the proof a property needs: those with an obligation of it, and
    those they build on"""
    need = set()
    for g, d in config.GROUPS.items():
        for f in [VERIF + '/verus/' + x for x in d['specs']] + [VERIF + '/verus/contracts/' + x for x in d['contracts']]:
            if P in re.findall(r'C\d\d', ' '.join(m.group(1) for m in re.finditer(r'^\s*(@[a-z]+\b[^:\n]*|//@.*)', open(f).read(), re.M))): need.add(g)
    while True:
        more = {n for g in need for n in config.GROUPS[g]['needs']} - need
        if not more: return need
        need |= more

class Extract:
    """`without`: parts of the proof (config.GROUPS) left out this time"""
    def __init__(self, work, without=()):
        self.work = work
        self.without = set(without)
        allcs, self.extra = asm.parse_contracts(sorted(glob.glob(VERIF + '/verus/contracts/*.vc')))
        self.allcs = allcs
        self.cs = {k: c for k, c in allcs.items() if group_of(c.where.split(':')[0]) not in self.without}
        self.allspecs = [(os.path.basename(f), open(f).read()) for f in sorted(glob.glob(VERIF + '/verus/spec_*.rs'))]
        self.specs = [(f, t) for f, t in self.allspecs if group_of(f) not in self.without]
        self.mods = [m for m in config.MODS if not any(m in config.GROUPS[g]['mods'] for g in self.without)]
        self.prelude = open(VERIF + '/verus/prelude.rs').read()
        self.report = ''
        self.error = None

    def expand(self):
        rc, o, e = run(['cargo', '+nightly', 'rustc', '--offline', '-p', 'binschema', '--lib', '--profile=check', '--', '-Zunpretty=expanded'],
                       cwd=REPO, env=dict(ENV, CARGO_TARGET_DIR=VERIF + '/target/expand'), timeout=300)
        if rc != 0:
            self.error = 'the crate cannot be expanded: ' + e[-2000:]; return False
        if 'shapes' in self.mods:
            # what the crate's derive makes of the types in shapes/, as one more module
            d = VERIF + '/shapes'
            if REPO != '/repo':
                shutil.rmtree(self.work + '/shapes', ignore_errors=True); shutil.copytree(d, self.work + '/shapes'); d = self.work + '/shapes'
                t = open(d + '/Cargo.toml').read(); open(d + '/Cargo.toml', 'w').write(t.replace('"/repo/', '"%s/' % REPO))
            rc, x, e = run(['cargo', '+nightly', 'rustc', '--offline', '--lib', '--profile=check', '--', '-Zunpretty=expanded'],
                           cwd=d, env=dict(ENV, CARGO_TARGET_DIR=VERIF + '/target/expand'), timeout=300)
            m = re.search(r'^use binschema::.*$', x, re.M)
            if rc != 0 or not m:
                self.suspects = {'shapes'}
                self.error = 'the derived types cannot be expanded: ' + e[-2000:]; return False
            o += '\nmod shapes { use crate::known_schema::{KnownSchema, RecurseStack}; use crate::schema::{Schema, StructSchemaField, EnumSchemaVariant};\n' + x[m.end():].replace('::binschema::', '') + '\n}\n'
        open(self.work + '/exp.rs', 'w').write(o)
        return self.extract()

    def extract(self, stubs=()):
        """`stubs`: functions whose bodies are left out"""
        k = ''.join('%s\tmod\n' % m for m in self.mods) + ''.join('%s\t%s\n' % (k, 'extern' if k in stubs else c.mode) for k, c in self.cs.items())
        open(self.work + '/keys.txt', 'w').write(k)
        rc, o, e = run([VERIF + '/extractor/target/release/extractor', self.work + '/exp.rs', self.work + '/keys.txt', self.work + '/o.rs', self.work + '/r.txt'], timeout=120)
        if rc != 0:
            self.error = 'the extractor failed: ' + e[-2000:]; return False
        self.report = open(self.work + '/r.txt').read()
        self.code = open(self.work + '/o.rs').read()
        return True

    def assemble(self, demote, canary=None):
        return asm.assemble(self.code, self.report, self.prelude, self.specs, self.cs, self.extra, demote, canary)

def spec_tags(specs):
    """lemma -> tags, from `//@ Cxx,Cyy` lines before a proof fn"""
    r = {}
    for f, s in specs:
        cur = []; filetags = []
        for l in s.split('\n'):
            m = re.match(r'//@file (.*)$', l)
            if m: filetags = asm.parse_tags(m.group(1))
            m = re.match(r'//@ (.*)$', l)
            if m: cur = asm.parse_tags(m.group(1))
            m = re.match(r'pub (?:broadcast )?(?:proof )?fn (\w+)', l)
            if m: r[m.group(1)] = cur or filetags; cur = []
    return r

def verus(work, name, lines, extra=()):
    path = '%s/%s.rs' % (work, name)
    open(path, 'w').write('\n'.join(lines))
    t = time.time()
    rc, o, e = run(['verus', name + '.rs', '--output-json', '--time', '--error-format=json', '--multiple-errors', '4', '--num-threads', str(config.VERUS_THREADS)] + list(extra), cwd=work, timeout=config.VERUS_TIMEOUT[TIER])
    r = dict(rc=rc, wall=time.time() - t, json=None, diags=[])
    try: r['json'] = json.loads(o)
    except Exception: pass
    for l in e.split('\n'):
        if l.startswith('{'):
            try: d = json.loads(l)
            except Exception: continue
            if d.get('level') == 'error': r['diags'].append(d)
    r['stderr'] = e
    return r

class Proof:
    """the state of the deductive verification on this tree"""
    def __init__(self):
        self.ran = False; self.failures = []; self.demoted = {}; self.notes = []
        self.fns = {}; self.verified = 0; self.errors = 0; self.smt_ms = 0; self.queries = {}; self.wall = 0; self.runs = 0

VERIFY_MSGS = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed', 'possible arithmetic',
               'possible division', 'decreases not satisfied', 'loop invariant', 'possible bit shift', 'unreachable', 'cannot prove termination', 'possible truncat', 'bitvector', 'loop ensures', 'recommendation not met')

def prove(work, P):
    """A part of the proof which the verifier does not even accept as text on this
    tree (a type it speaks about has changed, say) is left out, and the rest redone."""
    aside = set(config.GROUPS) - scope(P)
    without = set(aside); notes = []
    t0 = time.time()
    while True:
        pr = prove_with(work, P, without)
        if pr.ran or len(without) == len(config.GROUPS) or time.time() - t0 > config.VERUS_TIMEOUT[TIER]: break
        sus = set(getattr(pr, 'suspects', ())) - without
        if not sus: sus = {[g for g in config.GROUPS if g not in without][-1]}
        grew = True
        while grew:
            more = {g for g, d in config.GROUPS.items() if g not in sus and g not in without and set(d['needs']) & (sus | without)}
            grew = bool(more); sus |= more
        notes += ['left out (%s): %s' % (', '.join(sorted(sus)), n) for n in pr.notes]
        log('left out', sorted(sus), pr.notes)
        without |= sus
    pr.notes = notes + pr.notes
    for k, c in pr.ex.allcs.items():
        if k not in pr.ex.cs and group_of(c.where.split(':')[0]) not in aside: pr.demoted.setdefault(k, 'its part of the proof was left out')
    pr.left_out = without - aside
    return pr

def prove_with(work, P, without):
    pr = Proof()
    ex = Extract(work, without)
    pr.ex = ex
    if not ex.expand():
        pr.notes.append(ex.error); pr.suspects = getattr(ex, 'suspects', ()); return pr
    pr.missing = [l.split('\t')[1] for l in ex.report.split('\n') if l.startswith('MISSING')]
    for k in pr.missing: pr.demoted[k] = 'the function is not in the source any more'
    demote = set()
    # a function whose shape no longer fits its contract is not decided
    fninfo = {}
    for l in ex.report.split('\n'):
        p = l.split('\t')
        if p[0] == 'FN': fninfo[p[1]] = p
    for k, c in ex.cs.items():
        if k in fninfo and c.mode != 'extern':
            nl = int(fninfo[k][4])
            np = len([x for x in fninfo[k][3].split(',') if x])
            if np != len(c.params):
                demote.add(k); pr.demoted[k] = 'its parameters changed'
            elif c.loops and nl != len(c.loops):
                demote.add(k); pr.demoted[k] = 'its loops changed'
            elif not c.loops and nl:
                demote.add(k); pr.demoted[k] = 'it has a loop without an invariant'
    for l in ex.report.split('\n'):
        if l.startswith('PANIC\t'):
            k = l.split('\t')[1]; demote.add(k); pr.demoted[k] = 'the extraction cannot rewrite its body'
    for attempt in range(config.MAX_DEMOTE):
        try:
            if demote and not ex.extract(demote): pr.notes.append(ex.error); return pr
            o, fi = ex.assemble(demote)
        except Exception as e:
            pr.notes.append('the code cannot be assembled with its contracts: %r' % e); return pr
        r = verus(work, 'full', o.lines)
        pr.runs += 1; pr.wall += r['wall']
        pr.out = o
        if r['rc'] is None:
            pr.notes.append('the verifier ran out of time'); return pr
        j = r['json'] or {}
        vr = j.get('verification-results', {})
        owner = []
        cur = None
        for inf in o.info:
            if inf and inf[0] in ('clause', 'body', 'proof', 'fnattr', 'canary') : cur = inf[1]
            elif inf and inf[0] == 'glue' and len(inf) > 1: cur = inf[1]
            elif inf and inf[0] in ('spec', 'prelude', 'head'): cur = None
            owner.append(cur)
        compile_errs = []; fails = []
        # nothing is verified before the whole crate has been accepted
        accepted = vr.get('verified', 0) + vr.get('errors', 0) > 0
        for d in r['diags']:
            m = d['message']
            if m.startswith('aborting due to') or not d['spans']: continue
            if 'rlimit' in m or 'Resource limit' in m or 'timed out' in m: fails.append(dict(d, rlimit=True))
            elif d['code'] is None and (accepted or any(x in m for x in VERIFY_MSGS)): fails.append(d)
            else: compile_errs.append(d)
        if compile_errs and not accepted:
            new = {}
            for d in compile_errs:
                for s in d['spans']:
                    if s['file_name'].endswith('full.rs'):
                        k = owner[s['line_start'] - 1]
                        if k and k not in demote:
                            new.setdefault(k, 'outside the verifier\'s dialect: ' + d['message'][:200])
                            break
            if not new:
                pr.suspects = set()
                for d in compile_errs:
                    for s in d['spans']:
                        if not s['file_name'].endswith('full.rs'): continue
                        inf = o.info[s['line_start'] - 1]
                        f = inf[1] if inf and inf[0] == 'spec' and len(inf) > 1 else None
                        k = owner[s['line_start'] - 1]
                        if f is None and k in ex.cs: f = ex.cs[k].where.split(':')[0]
                        if f and group_of(f): pr.suspects.add(group_of(f))
                pr.notes.append('the extracted crate is not accepted: ' + '; '.join(d['message'] for d in compile_errs[:4])); return pr
            for k in new: demote.add(k); pr.demoted[k] = new[k]
            log('demoted', new)
            continue
        pr.ran = bool(vr)
        if not vr:
            pr.notes.append('no verdict from the verifier: ' + r['stderr'][-1000:]); return pr
        pr.verified, pr.errors = vr.get('verified', 0), vr.get('errors', 0)
        t = j.get('times-ms', {}).get('smt', {})
        pr.smt_ms = t.get('smt-run', 0)
        for mod in t.get('smt-run-module-times', []):
            for f in mod.get('function-breakdown', []):
                q = pr.queries.setdefault(f['function'].split('::', 1)[1], dict(ms=0.0, rlimit=0, n=0, ok=True))
                q['ms'] += f['time-micros'] / 1000.0; q['rlimit'] += f['rlimit']; q['n'] += 1; q['ok'] = q['ok'] and f.get('success', True)
        lt = spec_tags(ex.specs)
        for d in fails:
            tags = set(); key = None; clause = None; body = False; lemma = None; at = None
            for s in d['spans']:
                if not s['file_name'].endswith('full.rs'): continue
                inf = o.info[s['line_start'] - 1]
                if inf and inf[0] == 'clause':
                    clause = (inf[1], inf[2], inf[5], o.lines[s['line_start'] - 1].strip())
                    tags |= set(inf[3])
                    if inf[2] in ('req',) : pass
                    else: key = inf[1]
                k = owner[s['line_start'] - 1]
                if inf and inf[0] in ('body', 'proof', 'fnattr'): key = k; body = True; at = k
                elif inf and inf[0] == 'glue' and len(inf) > 1: at = k
                if inf and inf[0] == 'spec' and key is None:
                    q = s['line_start'] - 1
                    while q > 0 and not re.match(r'\s*pub (broadcast )?(?:proof )?fn (\w+)', o.lines[q]): q -= 1
                    m = re.match(r'\s*pub (?:broadcast )?(?:proof )?fn (\w+)', o.lines[q])
                    if m: lemma = m.group(1)
            # a trait's postcondition that an implementation does not meet: it is the implementation that fails
            if clause and clause[0].startswith('trait ') and clause[1] == 'ens' and at and at != clause[0]:
                key = at; c = ex.cs.get(at)
                if c and c.tags: tags &= set(c.tags)
            if key is None and lemma: tags |= set(lt.get(lemma, []))
            if key and (clause is None or clause[1] == 'req'):
                c = ex.cs.get(key)
                if c: tags |= set(c.tags)
                tags |= set(x for cl in (c.clauses if c else []) if cl.kind in ('ens',) for x in cl.tags) if d.get('rlimit') else set()
            pr.failures.append(dict(kind='undecided' if d.get('rlimit') else 'failed', fn=key or lemma, clause=clause, tags=sorted(tags), message=d['message'], rendered=d.get('rendered', '')))
        break
    else:
        pr.notes.append('too many functions are outside the verifier\'s dialect')
    pr.demote_set = demote
    return pr

# ---------------------------------------------------------------- falsifier
def program(P): return VERIF + '/%s/target/debug/%s' % (config.CRATE[P], config.CRATE[P])

def build_falsifier(P):
    rc, o, e = run(['cargo', 'build', '--offline'], cwd=VERIF + '/' + config.CRATE[P], timeout=700)
    return (rc == 0), e

class Fals:
    def __init__(self):
        self.built = False; self.found = None; self.evaluations = 0; self.distinct = 0; self.samples = []; self.notes = []; self.crash = None; self.secs = 0; self.shards = 0

def one_shard(P, i, n, secs, work, res):
    inf = '%s/inflight-%d' % (work, i)
    cmd = [program(P), P, '--seed', str(SEED), '--secs', str(secs), '--shard', '%d/%d' % (i, n), '--inflight', inf] + (['--thorough'] if TIER == 'thorough' else [])
    rc, o, e = run(cmd, timeout=secs + config.HANG)
    j = None
    for l in o.split('\n'):
        if l.startswith('{'):
            try: j = json.loads(l)
            except Exception: pass
    res[i] = (rc, j, e, open(inf).read().strip() if os.path.exists(inf) else '')

def falsify(work, P):
    F = Fals()
    if P not in config.CAMPAIGNS: return F
    ok, e = build_falsifier(P)
    F.built = ok
    if not ok:
        F.notes.append('the falsifier does not build against this tree: ' + e[-1500:]); return F
    t = time.time()
    secs, n = config.SECS[TIER].get(P, config.SECS[TIER]['default']), config.SHARDS
    res = {}
    ths = [threading.Thread(target=one_shard, args=(P, i, n, secs, work, res)) for i in range(n)]
    for x in ths: x.start()
    for x in ths: x.join()
    F.shards = n
    for i in sorted(res):
        rc, j, e, inf = res[i]
        if j and 'error' not in j:
            F.evaluations += j['evaluations']; F.distinct += j['distinct']
            F.samples += j['samples'][:2]
            if j['found'] and not F.found:
                F.found = dict(shard=i, case=j['case'], what=j['what'])
        else:
            why = 'hung' if rc is None else 'ended with status %s' % rc
            # a crash counts when its case crashes again by itself
            case = inf.split()[-1] if inf else None
            d = dict(shard=i, case=case, what='the real code %s while running case %s: %s' % (why, case, (j or {}).get('error', e[-500:])))
            if case is not None and not F.found:
                cmd = [program(P), P, '--seed', str(SEED), '--secs', '30', '--shard', '%d/%d' % (i, n), '--case', case] + (['--thorough'] if TIER == 'thorough' else [])
                rc2, o2, e2 = run(cmd, timeout=60)
                if rc2 not in (0,):
                    if rc2 == 1:
                        try: d['what'] = json.loads(o2.strip().split('\n')[-1])['what']
                        except Exception: pass
                    F.found = d
                else: F.notes.append('a search process %s and could not be made to do so again: %s' % (why, d['what']))
            elif not F.found: F.notes.append('a search process %s: %s' % (why, d['what']))
    F.secs = time.time() - t
    return F

# ---------------------------------------------------------------- contracts discharged by Kani
class KaniRun:
    def __init__(self):
        self.proofs = {}; self.failures = []; self.notes = []; self.secs = 0; self.checks = 0

def kani(P):
    """the contract of CoderStateAlloc: its source as it is, with the harnesses of kani/ appended, in a copy of the crates"""
    K = KaniRun()
    spec = config.KANI.get(P)
    if not spec: return K
    t = time.time()
    harness, file, mod = spec
    src = open(VERIF + '/' + harness).read()
    for h in re.findall(r'#\[kani::proof\]\s*fn (\w+)', src): K.proofs[h] = None
    copy = VERIF + '/target/kani-src'
    run(['rm', '-rf', copy])
    os.makedirs(copy)
    rc, o, e = run(['cp', '-r', REPO + '/Cargo.toml', REPO + '/Cargo.lock', REPO + '/binschema', REPO + '/binschema_derive', REPO + '/tests', copy])
    f = copy + '/' + file
    if not os.path.exists(f):
        K.notes.append('%s is not there any more' % file); return K
    open(f, 'a').write('\n' + src)
    env = {k: v for k, v in dict(ENV, CARGO_TARGET_DIR=VERIF + '/target/kani', CARGO_NET_OFFLINE='true').items() if k != 'RUSTFLAGS'}
    rc, o, e = run(['cargo', 'kani', '-p', 'binschema', '-Z', 'unstable-options', '--default-unwind', '4', '--cbmc-args', '--memory-leak-check'], cwd=copy, env=env, timeout=config.KANI_TIMEOUT)
    run(['rm', '-rf', copy])
    K.secs = time.time() - t
    if rc is None: K.notes.append('Kani ran out of time')
    parts = re.split(r'^Checking harness (\S+)\.\.\.$', o or '', flags=re.M)
    for name, text in zip(parts[1::2], parts[2::2]):
        h = name.split('::')[-1]
        if h not in K.proofs: continue
        K.checks += len(re.findall(r'- Status: ', text))
        failed = re.findall(r'^Check \d+: (\S+).*\n\s*- Status: FAILURE\n\s*- Description: "(.*)"(?:\n\s*- Location: (.*))?', text, flags=re.M)
        if 'VERIFICATION:- SUCCESSFUL' in text: K.proofs[h] = True
        elif failed and not any('unwinding' in d or 'not currently supported' in d or 'unwind' in n for n, d, l in failed):
            K.proofs[h] = False
            K.failures.append(dict(kind='failed', fn='CoderStateAlloc (Kani proof %s)' % h, clause=None, tags=[P],
                                   message='; '.join(sorted(set(d for n, d, l in failed))), rendered='\n'.join('%s: %s (%s)' % x for x in failed)))
    und = [h for h in K.proofs if K.proofs[h] is None]
    if und: K.notes.append('Kani did not decide %s: %s' % (', '.join(und), (e or '')[-600:]))
    return K

# ---------------------------------------------------------------- known findings
def known_probe(P):
    """[(line, status)] for the findings recorded (not repaired) for P"""
    out = []
    for k in config.KNOWN:
        if k['property'] != P: continue
        rc, o, e = run([program(P)] + k['probe'], timeout=120)
        if rc != 0: out.append(k['text'])
    return out

# ---------------------------------------------------------------- verdict
def relevant(ex, P):
    """functions under contract which P depends on -> clauses tagged with it"""
    r = {}
    for k, c in ex.allcs.items():
        cl = [x for x in c.clauses if P in x.tags and x.kind == 'ens'] + [x for l in c.loops.values() for x in l.clauses if P in x.tags]
        if cl or P in c.tags: r[k] = cl
    return r

def vname(key):
    """the name the verifier's timing report uses for a function"""
    return key

def main():
    P = sys.argv[1]
    assert P in config.PROPS, P
    work = VERIF + '/target/work-%s' % P
    os.makedirs(work, exist_ok=True)
    for d in ('evidence', 'target/replay'): os.makedirs(VERIF + '/' + d, exist_ok=True)
    rc, o, e = run(['cargo', 'build', '--release', '--offline'], cwd=VERIF + '/extractor', timeout=600)
    if rc != 0: log('the extractor does not build:', e[-500:])
    box = {}
    def fals():
        try: box['F'] = falsify(work, P)
        except Exception as e:
            F = Fals(); F.notes.append('the search failed: %r' % e); box['F'] = F
    def kan():
        try: box['K'] = kani(P)
        except Exception as e:
            K = KaniRun(); K.notes.append('Kani failed: %r' % e); box['K'] = K
    th = threading.Thread(target=fals); th.start()
    th2 = threading.Thread(target=kan); th2.start()
    try: pr = prove(work, P)
    except Exception as e:
        import traceback
        pr = Proof(); pr.ex = Extract(work); pr.notes.append('the proof could not be attempted: ' + traceback.format_exc()[-800:])
    log('verifier: verified %d, errors %d, demoted %s, notes %s' % (pr.verified, pr.errors, list(pr.demoted), pr.notes))
    th.join(); th2.join()
    F = box['F']; K = box['K']
    if K.proofs: log('Kani: %s, notes %s' % (K.proofs, K.notes))
    log('search: %d evaluations, found %s, notes %s' % (F.evaluations, bool(F.found), F.notes))
    ex = pr.ex
    rel = relevant(ex, P)
    lt = spec_tags(ex.allspecs)
    here = spec_tags(ex.specs)
    lemmas = sorted(k for k, t in lt.items() if P in t)
    own = [f for f in pr.failures + K.failures if f['kind'] == 'failed' and P in f['tags']]
    und = [f for f in pr.failures if f['kind'] != 'failed' and (P in f['tags'] or f['fn'] in rel)]
    failed_fns = set(f['fn'] for f in pr.failures)
    # obligations: the tagged clauses and the body of each function under contract, and each lemma
    nob = ndis = 0; undischarged = []; bounded = []; fnlist = []
    for k, cl in rel.items():
        c = ex.allcs[k]
        n = len(cl) + 1
        if c.mode == 'extern':
            continue
        if not pr.ran or k in pr.demoted:
            nob += n; bounded.append(k); undischarged.append('%s: not decided by the verifier (%s)' % (k, pr.demoted.get(k, 'the verifier gave no verdict'))); continue
        nob += n
        bad = set(); bodybad = 0
        for f in pr.failures:
            if f['fn'] == k:
                if f['clause'] and f['clause'][1] != 'req': bad.add(f['clause'][2] + f['clause'][1])
                else: bodybad = 1
        nb = len([x for x in cl if (x.where + x.kind) in bad])
        ndis += n - nb - bodybad
        fnlist.append(k)
        for f in pr.failures:
            if f['fn'] == k: undischarged.append('%s: %s %s' % (k, f['message'], (f['clause'] or ('', '', '', ''))[3]))
    for l in lemmas:
        nob += 1
        if pr.ran and l in here and l not in failed_fns: ndis += 1
        else: undischarged.append('lemma %s' % l)
    for h, ok in sorted(K.proofs.items()):
        nob += 1
        if ok: ndis += 1
        else: undischarged.append('Kani proof %s: %s' % (h, 'failed' if ok is False else 'not decided'))
    assumed = sorted(k for k, c in ex.allcs.items() if c.mode == 'extern')
    nass = len(re.findall(r'external_body|assume_specification|uninterp|admit\(\)|assume\(', ex.prelude))
    nspec = sum(len(re.findall(r'external_body|assume_specification|admit\(\)|assume\(', s)) for _, s in ex.specs)
    trusted = ['%d trusted models of std and std::io functions in verus/prelude.rs (external_body, assume_specification, uninterp), %d in verus/spec_*.rs (derived PartialEq)' % (nass, nspec)]
    trusted += ['contract assumed, body not verified' + (' by Verus (discharged by Kani, see kani)' if K.proofs and all(K.proofs.values()) and 'CoderStateAlloc' in k else '') + ': ' + k for k in assumed]
    trusted += ['extraction rewrite, %s times: %s' % (l.split('\t')[2], l.split('\t')[1]) for l in ex.report.split('\n') if l.startswith('COUNT')]
    trusted += config.TRUST + config.TRUST_PROP.get(P, [])
    level = config.LEVEL[P]
    cov = dict(
        obligations=nob, discharged=ndis,
        checker_cmd='verus full.rs (Verus %s, back end Z3) on the code extracted from /repo on this run' % config.VERUS_VERSION,
        trusted_base=trusted,
        functions_under_contract=fnlist, lemmas=lemmas, functions_assumed=assumed,
        not_decided_by_the_verifier=undischarged,
        verifier_totals=dict(functions_and_lemmas_verified=pr.verified, errors=pr.errors, smt_seconds=round(pr.smt_ms / 1000.0, 2), wall_s=round(pr.wall, 2), runs=pr.runs),
        bounded_stand_ins=config.BOUNDED.get(P, []) + ['%s: not proved on this tree, covered by the search only' % k for k in bounded],
        evaluations=F.evaluations, distinct_nontrivial=F.distinct, rule=config.RULE.get(P, ''), samples=F.samples[:6] or ['none'],
        kani=dict(proofs=K.proofs, checks=K.checks, seconds=round(K.secs, 1), notes=K.notes),
        search=dict(shards=F.shards, seconds=round(F.secs, 1), notes=F.notes),
        notes=pr.notes,
    )
    known = known_probe(P) if F.built else []
    rc = 0
    line = None
    if F.found or own:
        rp = '%s/target/replay/%s.json' % (VERIF, P)
        rec = dict(property=P, seed=SEED, tier=TIER, failing_input=F.found,
                   replay='python3 %s/replay.py %s' % (HERE, rp),
                   failed_obligations=[dict(function=f['fn'], clause=f['clause'], message=f['message'], verifier_output=f['rendered']) for f in own])
        json.dump(rec, open(rp, 'w'), indent=1)
        line = 'VIOLATION property=%s replay=%s%s' % (P, rp, '' if F.found else ' no-failing-input-found')
        rc = 1
        if F.found: log('failing input:', F.found['what'][:2000])
        for f in own: log('failed obligation:', f['fn'], f['clause'], f['message'])
    ev = dict(property=P, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level, coverage=cov,
              assumptions=config.TRUST + config.TRUST_PROP.get(P, []), wall_s=round(time.time() - T0, 2), violations=1 if rc else 0)
    tmp = VERIF + '/evidence/.%s.tmp' % P
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, VERIF + '/evidence/%s.json' % P)
    for k in known: print('KNOWN-FINDING: property=%s %s' % (P, k))
    if line: print(line)
    else: print('property %s held: %d of %d obligations discharged, %d cases tried' % (P, ndis, nob, F.evaluations))
    sys.stdout.flush()
    sys.exit(rc)

if __name__ == '__main__':
    try: main()
    except SystemExit: raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
