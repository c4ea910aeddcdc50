#!/usr/bin/env python3
"""Make a planted bug: mkseed.py SPEC.py
SPEC.py defines id, prop, pkg, edits [(file, old, new)], test (Go test body in
package <pkg>_test or pkgname), needs, breaks. The bug is applied to a scratch
copy of /repo, which must build, pass the stable tests and fail the demo."""
import sys, os, subprocess, json, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
sid, prop, pkg = ns['id'], ns['prop'], ns['pkg']
repo = os.environ.get('SEED_REPO', '/repo')
out = os.environ.get('SEED_OUT', '/verif/seeded') + '/' + sid
wt = tempfile.mkdtemp(prefix='seedwt')
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
try:
    sh(f'cp -a {repo}/. {wt}')
    for f, old, new in ns['edits']:
        p = os.path.join(wt, f); s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', wt).stdout
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    for fn, txt in ns.get('files', {}).items():
        open(out + '/' + fn, 'w').write(txt)
    if 'demo' in ns:
        demo = ns['demo']
    else:
        open(out + '/demo_test.go', 'w').write(ns['test'])
        demo = f'''#!/bin/bash
# fails when the planted bug is present
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap '/bin/rm -r "$t"' EXIT
printf '{{"Replace":{{"%s/{pkg}/zz_demo_test.go":"%s/demo_test.go"}}}}' "$PWD" "$d" >"$t/o.json"
GOFLAGS=-mod=mod GOPROXY=off go test -vet=off -count=1 -timeout 60s -overlay "$t/o.json" -run '^TestDemo$' ./{pkg}
'''
    open(out + '/demo.sh', 'w').write(demo)
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({"property": prop, "needs": ns['needs'], "what_it_breaks": ns['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    ok = True
    r = sh('bash ' + out + '/demo.sh', repo)
    if r.returncode != 0: ok = False; print('demo fails on clean tree', r.stdout[-1500:], r.stderr[-1500:])
    r = sh('bash ' + out + '/demo.sh', wt)
    if r.returncode == 0 or 'FAIL' not in r.stdout and 'demo' not in ns: ok = False; print('demo passes/not failing properly with bug', r.stdout[-1500:], r.stderr[-1500:])
    else: print(r.stdout[-400:])
    r = sh('go build ./... && go vet ./ecmascript/... ./cmd/... && go test ./ecmascript/... 2>&1', wt)
    if r.returncode != 0: ok = False; print('tests', r.stdout[-1500:], r.stderr[-500:])
    # changed lines must be original ones
    base = sh('git rev-list --max-parents=0 HEAD', repo).stdout.split()[0]
    cur = None
    for l in sh('git diff -U0', wt).stdout.split('\n'):
        if l.startswith('--- a/'): cur = l[6:]
        if l.startswith('@@'):
            a = l.split()[1][1:].split(','); st = int(a[0]); n = int(a[1]) if len(a) > 1 else 1
            for i in range(st, st + n):
                b = sh(f'git blame -s -L{i},{i} HEAD -- {cur}', repo).stdout
                if not b.startswith('^'): print('NOT ORIGINAL', cur, b.strip())
    print(sid, 'OK' if ok else 'BAD')
    if not ok: shutil.rmtree(out)
finally:
    shutil.rmtree(wt)
