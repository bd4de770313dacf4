#!/usr/bin/env python3
"""catch.py [-p PROP] ids...: apply each planted bug to /repo, run the check of its property (or PROP), undo."""
import json, os, subprocess, sys, time
V = '/verif'
args = sys.argv[1:]; prop = None
if args[:1] == ['-p']: prop, args = args[1], args[2:]
checks = {c['property']: c for c in json.load(open(V + '/MANIFEST.json'))['checks']}
for i in args or sorted(os.listdir(V + '/seeded')):
    p = prop or json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
    assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain']).strip()
    subprocess.check_call(['git', '-C', '/repo', 'apply', f'{V}/seeded/{i}/patch.diff'])
    t = time.time()
    try:
        env = dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
        r = subprocess.run(['python3', 'run.py', p], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        viol = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        ok = r.returncode == 1 and any('property=' + p in l for l in viol)
        print(f'{i:32} {p} {"CAUGHT" if ok else "MISSED rc=%d" % r.returncode} {time.time()-t:.0f}s', flush=True)
        f = V + '/tools/catch.json'
        j = json.load(open(f)) if os.path.exists(f) else {}
        j.setdefault(i, {})[p] = 'caught (%ds)' % (time.time()-t) if ok else 'missed'
        json.dump(j, open(f, 'w'), indent=1, sort_keys=True)
        for l in viol[:3]: print('     ', l[:200], flush=True)
        if not ok: print(r.stdout[-600:])
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
