#!/usr/bin/env python3
"""(Re)makes /verif/seeded from tools/seeds/*.py and confirms each seed in a scratch copy of /repo.
usage: mkseeds.py [ID..]"""
import os, sys, json, subprocess, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seedwork'
DEMO = '''#!/bin/bash
# run in the repository's root, after it is built: 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
binschema = { path = "$repo/binschema" }
serde = { version = "1", features = ["derive"] }
[profile.dev]
debug = 0
EOF
cd "$d" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cargo build --offline --quiet 2> "$d/err" || { cat "$d/err"; exit 4; }
timeout 120 "$d/target/debug/demo"
'''
HEAD = '''#![allow(unused)]
use binschema::*;
use serde::{Serialize, Deserialize};
use std::io::{self, Read, Write};
use binschema::error::ErrorKind;
fn enc<T>(s: &Schema, f: impl FnOnce(&mut Encoder<Vec<u8>>) -> T) -> (T, Vec<u8>, bool) {
    let mut c = CoderState::new(s, CoderStateAlloc::new(), None);
    let mut w = Vec::new();
    let r = f(&mut Encoder::new(&mut c, &mut w));
    (r, w, c.is_finished())
}
fn dec<T>(s: &Schema, mut b: &[u8], f: impl FnOnce(&mut Decoder<&[u8]>) -> T) -> (T, usize, bool) {
    let mut c = CoderState::new(s, CoderStateAlloc::new(), None);
    let r = f(&mut Decoder::new(&mut c, &mut b));
    (r, b.len(), c.is_finished())
}
'''
def sh(cmd, cwd, t=600):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
def main():
    seeds = {}
    for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
        ns = {}; exec(open(f).read(), ns); seeds.update(ns['SEEDS'])
    ids = sys.argv[1:] or list(seeds)
    os.makedirs(S, exist_ok=True)
    if os.path.exists(S + '/repo'): shutil.rmtree(S + '/repo')
    subprocess.check_call(['cp', '-a', '/repo', S + '/repo'])
    R = S + '/repo'
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    for i in ids:
        s = seeds[i]
        sh('git checkout -q -- .', R)
        for e in s['edits']:
            p = R + '/' + e[0]; t = open(p).read()
            n = t.count(e[1])
            want = e[3] if len(e) > 3 else 1
            assert n == want, (i, e[0], 'occurs', n)
            open(p, 'w').write(t.replace(e[1], e[2]))
        rc, patch = sh('git diff', R)
        d = V + '/seeded/' + i
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/main.rs', 'w').write(HEAD + s['main'])
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        # confirm
        rc, o = sh('CARGO_NET_OFFLINE=true cargo test --offline --workspace 2>&1', R)
        ok = ' FAILED' not in o and 'error' not in o.split('test result')[0][-1500:] and rc == 0
        r1, o1 = sh('bash %s/demo.sh' % d, R)
        sh('git checkout -q -- .', R)
        r0, o0 = sh('bash %s/demo.sh' % d, R)
        print(i, 'tests', 'pass' if ok else 'FAIL', 'demo with patch', r1, 'without', r0, '' if ok and r1 and not r0 and r1 != 4 else '  <<<<<<<<<< BAD\n' + ('' if ok else o[-1500:]) + o1[-1500:] + o0[-1500:], flush=True)
    shutil.rmtree(S)
main()
