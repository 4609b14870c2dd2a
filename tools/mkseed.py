#!/usr/bin/env python3
"""mkseed.py BATCH.py [ID...]: make /verif/seeded/<id> from the SEEDS of a batch file.

Each seed: id, property, needs, breaks, pkg (dir of the demo test), edits [(file, old, new)], demo (Go test file).
A seed is kept only if the changed tree builds, passes the stable tests, and the demo passes without and fails with it."""
import sys, os, json, subprocess, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
base = json.load(open('/opt/vp/BASELINE.json'))
def run(cmd, cwd, timeout=600):
    p = subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')
DEMO = '''#!/bin/bash
# cwd: the repository. Runs demo.go.txt as a test of ./PKG through an overlay.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/PKG/zz_demo_test.go": "%s/demo.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
TMPDIR="$tmp" go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestSeedDemo$' ./PKG
'''
def stable():
    b = base
    for k in ('stable', 'passed', 'tests'):
        if isinstance(b, dict) and k in b:
            return b[k]
    return b
for s in ns['SEEDS']:
    if want and s['id'] not in want:
        continue
    t = tempfile.mkdtemp(prefix='seed')
    wt = t + '/repo'
    try:
        run(f'cp -a /repo {wt}', '/')
        d = t + '/demo'
        os.makedirs(d)
        open(d + '/demo.go.txt', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO.replace('PKG', s['pkg']))
        rc, out = run(f'bash {d}/demo.sh', wt)
        if rc != 0:
            print(s['id'], 'DEMO FAILS ON THE UNCHANGED TREE\n', out[-3000:]); continue
        bad = False
        for f, old, new in s['edits']:
            p = wt + '/' + f
            txt = open(p).read()
            if txt.count(old) != 1:
                print(s['id'], 'edit matches', txt.count(old), 'times in', f); bad = True; break
            open(p, 'w').write(txt.replace(old, new))
        if bad: continue
        rc, out = run('. /opt/vp/env.sh; go build ./... && go vet ./... 2>&1 | tail -3', wt)
        if rc != 0:
            print(s['id'], 'does not build\n', out[-2000:]); continue
        rc, out = run('. /opt/vp/env.sh; go test -json -vet=off -count=1 -timeout 5m ./...', wt)
        passed = set()
        failed = set()
        for l in out.splitlines():
            try: j = json.loads(l)
            except ValueError: continue
            if j.get('Test') and j.get('Action') in ('pass', 'fail'):
                (passed if j['Action'] == 'pass' else failed).add(j['Package'] + '/' + j['Test'])
        failed &= set(base['stable'])
        failed |= set(base['stable']) - passed
        if failed:
            print(s['id'], 'TESTS FAIL', sorted(failed)[:6]); continue
        rc, out = run(f'bash {d}/demo.sh', wt)
        if rc == 0:
            print(s['id'], 'DEMO PASSES WITH THE PATCH'); continue
        rc, diff = run('git diff', wt)
        o = '/verif/seeded/' + s['id']
        os.makedirs(o, exist_ok=True)
        for f in ('demo.sh', 'demo.go.txt'):
            shutil.copy(d + '/' + f, o)
        open(o + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        print(s['id'], 'kept;', out.strip().splitlines()[0][:150] if out.strip() else '')
    finally:
        shutil.rmtree(t)
