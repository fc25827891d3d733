#!/usr/bin/env python3
"""replay a recorded violation against the real code: replay.py FILE"""
import sys, json, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import config
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(sys.argv[1]))
f = r.get('failing_input')
if not f:
    print('no failing input was found; the obligations that failed:')
    for o in r['failed_obligations']: print(o['function'], o['message'], o['clause']); print(o['verifier_output'])
    sys.exit(1)
subprocess.check_call(['cargo', 'build', '--offline'], cwd=V + '/' + config.CRATE[r['property']], env=dict(os.environ, CARGO_NET_OFFLINE='true'))
cmd = [V + '/%s/target/debug/%s' % (config.CRATE[r['property']], config.CRATE[r['property']]), r['property'], '--seed', str(r['seed']), '--secs', '60', '--shard', '%d/%d' % (f['shard'], config.SHARDS), '--case', str(f['case'])]
if r['tier'] == 'thorough': cmd.append('--thorough')
print(' '.join(cmd))
sys.exit(subprocess.call(cmd))
