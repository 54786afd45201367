#!/usr/bin/env python3
"""mkseed.py SEEDS.py [id...]: builds and confirms /verif/seeded/<id> from descriptions
(each: id, property, needs, breaks, edits=[(file, old, new)], pkg, test), in a scratch copy of /repo."""
import os, sys, json, subprocess, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
W = '/tmp/verif-seed-copy'
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/scratch"
printf '{"Replace":{"%%s/%s/verif_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$here" > "$t/overlay.json"
TMPDIR="$t/scratch" GOFLAGS=-mod=readonly timeout 280 go test -overlay "$t/overlay.json" -vet=off -tags sqlite_fts5 -count=1 %s -run '^TestVerifDemo$' ./%s
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for s in ns['seeds']:
    if want and s['id'] not in want: continue
    if not want and os.path.exists('/verif/seeded/'+s['id']): continue
    shutil.rmtree(W, ignore_errors=True)
    sh('cp -a /repo '+W)
    d = tempfile.mkdtemp()
    open(d+'/demo_test.go.txt','w').write(s['test'])
    open(d+'/demo.sh','w').write(DEMO % (s['pkg'], s.get('flags',''), s['pkg']))
    os.chmod(d+'/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d+'/meta.json','w'), indent=1)
    ok = True
    r = sh('bash %s/demo.sh' % d, cwd=W)
    if r.returncode != 0:
        print(s['id'], 'DEMO FAILS UNPATCHED\n', r.stdout[-1500:]); ok = False
    for f, old, new in s['edits']:
        t = open(W+'/'+f).read()
        if t.count(old) != 1:
            print(s['id'], f, 'old text found', t.count(old), 'times'); ok = False; break
        open(W+'/'+f,'w').write(t.replace(old, new))
    if ok:
        r = sh('go build -tags sqlite_fts5 ./... ; rm -f /tmp/test-index* /tmp/test-stream*; go test -tags sqlite_fts5 -vet=off -count=1 ./cmd/... ./pkg/...; e=$?; rm -f /tmp/test-index* /tmp/test-stream*; exit $e', cwd=W)
        if r.returncode != 0:
            print(s['id'], 'TESTS FAIL\n', r.stdout[-1500:]); ok = False
    if ok:
        r = sh('bash %s/demo.sh' % d, cwd=W)
        if r.returncode == 0 or 'build failed' in r.stdout or 'setup failed' in r.stdout:
            print(s['id'], 'DEMO PASSES PATCHED', r.stdout[-500:]); ok = False
        else:
            line = [l for l in r.stdout.split('\n') if 'verif_demo_test' in l or 'panic' in l or 'DATA RACE' in l]
            print(s['id'], 'demo:', (line or [''])[0].strip()[:160])
    if ok:
        p = sh('git -C %s diff' % W).stdout
        open(d+'/patch.diff','w').write(p)
        dst = '/verif/seeded/'+s['id']
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        # our checks against it
        a = sh('git -C /repo apply %s/patch.diff' % dst)
        try:
            r = sh('VERIF_SEED=1 /verif/check.sh %s quick' % s['property'])
        finally:
            sh('git -C /repo checkout -- .')
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        print('   check exit', r.returncode, (v or [r.stdout[-300:]])[0][:200])
    shutil.rmtree(d, ignore_errors=True)
shutil.rmtree(W, ignore_errors=True)
