#!/usr/bin/env python3
"""seed.py FILE...: make planted bugs. Each FILE is Python that calls seed(...). A bug is kept only if it applies,
builds, passes the stable tests, and its demo passes without it and fails with it."""
import json, os, re, shutil, subprocess, sys, tempfile
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in the repository: exit 0 when the property holds for this demonstration
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" > "$T/overlay.json"
go test -vet=off -count=1 -timeout 100s -overlay "$T/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, capture_output=True, text=True, **k)
def seed(id, prop, edits, pkg, test, needs, breaks):
    out = f'{D}/seeded/{id}'
    if os.environ.get('ONLY') and id not in os.environ['ONLY'].split(','):
        return
    T = tempfile.mkdtemp(dir='/tmp')
    try:
        sh(f'cp -a /repo {T}/repo', '/')
        R = T + '/repo'
        sh('git checkout -q -- .', R)
        os.makedirs(T + '/demo')
        open(T + '/demo/demo_test.go', 'w').write(test)
        open(T + '/demo/demo.sh', 'w').write(DEMO % {'pkg': pkg})
        os.chmod(T + '/demo/demo.sh', 0o755)
        r = sh(f'bash {T}/demo/demo.sh', R)
        if r.returncode:
            print(id, 'REJECTED: demo fails on the unchanged tree\n', r.stdout[-1500:], r.stderr[-1500:]); return
        for f, old, new in edits:
            s = open(f'{R}/{f}').read()
            if s.count(old) != 1:
                print(id, 'REJECTED:', f, s.count(old), 'matches of', repr(old)); return
            open(f'{R}/{f}', 'w').write(s.replace(old, new))
        r = sh('go build ./... && go vet ./pkg/... 2>&1 | head -5', R)
        if r.returncode:
            print(id, 'REJECTED: does not build', r.stderr); return
        r = sh('go test -json -vet=off -count=1 $(go list ./... | grep -vx github.com/hexbee-net/etxe/pkg/dag)', R)
        base = json.load(open('/opt/vp/BASELINE.json'))
        want = set(base['passed'] if isinstance(base, dict) and 'passed' in base else base.get('stable', base.get('tests', [])))
        fails = re.findall(r'"Action":"fail".*', r.stdout)
        if fails:
            print(id, 'REJECTED: tests fail', fails[:6]); return
        rd = sh('go test -vet=off -count=1 ./pkg/dag', R)
        r = sh(f'bash {T}/demo/demo.sh', R)
        if r.returncode == 0:
            print(id, 'REJECTED: demo passes with the change'); return
        patch = sh('git diff', R).stdout
        os.makedirs(out, exist_ok=True)
        for f in ('demo.sh', 'demo_test.go'):
            shutil.copy(f'{T}/demo/{f}', f'{out}/{f}')
        open(out + '/patch.diff', 'w').write(patch)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
        print(id, 'kept', '' if rd.returncode == 0 else '(pkg/dag tests: %s)' % re.findall(r'--- FAIL: (\S+)', rd.stdout))
    finally:
        shutil.rmtree(T)
for f in sys.argv[1:]:
    exec(open(f).read())
