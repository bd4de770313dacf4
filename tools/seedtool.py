#!/usr/bin/env python3
"""Make and verify planted bugs: seedtool.py make SPEC.py | verify [ids] | catch ID PROP [scale]

A SPEC file defines SEEDS, a list of dicts: id, property, edits [(file, old, new)], demo (Go test
functions), needs, breaks, imports (optional), race (optional)."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod')

def run(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def scratch():
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
    return d

def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    only = set(sys.argv[3:])
    for s in ns['SEEDS']:
        if only and s['id'] not in only: continue
        d = scratch(); r = d + '/repo'
        try:
            for f, old, new in s['edits']:
                p = os.path.join(r, 'protocol', f); t = open(p).read()
                if t.count(old) != 1:
                    print(s['id'], 'EDIT does not match once:', f, t.count(old), old[:60]); break
                open(p, 'w').write(t.replace(old, new))
            else:
                run('gofmt -l protocol', r)
                out = os.path.join(SEEDED, s['id']); os.makedirs(out, exist_ok=True)
                diff = subprocess.check_output(['git', 'diff'], cwd=r, text=True)
                open(out + '/patch.diff', 'w').write(diff)
                shutil.copy(HERE + '/demo/helper_test.go', out)
                sh = open(HERE + '/demo/demo.sh').read().replace('RACE ', '-race ' if s.get('race') else '')
                open(out + '/demo.sh', 'w').write(sh); os.chmod(out + '/demo.sh', 0o755)
                imps = '\n'.join('\t"%s"' % i if not i.startswith('lib/') else '\t"github.com/RTann/libsignal-go/protocol/%s"' % i[4:] for i in ['testing'] + s.get('imports', []))
                open(out + '/demo_test.go', 'w').write('package seeded\n\nimport (\n%s\n)\n\n%s\n' % (imps, s['demo'].strip('\n')))
                run('gofmt -w ' + out + '/demo_test.go', '/')
                json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
                verify1(s['id'])
        finally:
            shutil.rmtree(d)

def verify1(i):
    d = scratch(); r = d + '/repo'; sd = os.path.join(SEEDED, i); ok = True
    try:
        dd = d + '/x'; shutil.copytree(sd, dd)
        rc, o = run('bash %s/demo.sh' % dd, r)
        if rc: print(i, 'demo FAILS on the unchanged tree\n', o[-1500:]); ok = False
        rc, o = run('git apply %s/patch.diff' % sd, r)
        if rc: print(i, 'does not apply', o); return
        rc, o = run('cd protocol && go build ./... && go vet ./... ; go test -modfile=/opt/vp/protocol.mod ./... 2>&1 | grep -v "no test files"', r)
        if 'FAIL' in o or rc: print(i, 'TESTS:', o[-1500:]); ok = False
        rc, o = run('bash %s/demo.sh' % dd, r)
        if rc == 0: print(i, 'demo PASSES with the patch'); ok = False
        elif 'build failed' in o or rc == 3: print(i, 'demo does not build', o[-800:]); ok = False
        print(i, 'ok' if ok else 'NOT OK', '' if not ok else [l.strip() for l in o.splitlines() if '_test.go:' in l][:1])
    finally:
        shutil.rmtree(d)

if sys.argv[1] == 'make': make(sys.argv[2])
elif sys.argv[1] == 'verify':
    for i in sys.argv[2:] or sorted(os.listdir(SEEDED)): verify1(i)
