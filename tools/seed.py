#!/usr/bin/env python3
"""seed.py SPEC.py [ids...]: builds /verif/seeded/<id>/ from a spec, in a scratch copy of /repo,
keeping a planted bug only when it builds, passes the tests, and its demo tells it from the
unchanged tree. SPEC.py defines bug(id, property, needs, breaks, edits, demo, pkg)."""
import sys, os, subprocess, json, shutil, tempfile
V = '/verif'
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', CGO_ENABLED='1')
DEMO = '''#!/bin/bash
# Runs demo_test.go inside ./%(pkg)s of the repository in the current directory.
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
%(extra)sprintf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"%%s}}\\n' "$(pwd)" "$D" "$X" > "$W/overlay.json"
go test -count=1 -vet=off %(flags)s-overlay "$W/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''
HMAC = '''G=/opt/veriftools/go1.23.12/src/crypto/hmac
sed 's/^func New(h func() hash.Hash, key \\[\\]byte) hash.Hash {/func New0(h func() hash.Hash, key []byte) hash.Hash {/' $G/hmac.go > "$W/hmac.go"
X=$(printf ',"%s/hmac.go":"%s/hmac.go","%s/zz_hook.go":"%s/hmac_hook.go"' $G "$W" $G "$D")
'''
want = set(sys.argv[2:])
bugs = []
def bug(id, property, needs, breaks, edits, demo, pkg='util', flags='', hmac=False):
    if not want or id in want: bugs.append((id, property, needs, breaks, edits, demo, pkg, flags, hmac))
exec(open(sys.argv[1]).read())
base = json.load(open('/opt/vp/BASELINE.json'))
def run(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
wt = tempfile.mkdtemp(prefix='seedwt.', dir='/tmp')
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
shutil.rmtree(wt); subprocess.check_call(['cp', '-a', '/repo', wt])
bad = 0
for id, prop, needs, breaks, edits, demo, pkg, flags, hmac in bugs:
    subprocess.check_call(['git', '-C', wt, 'checkout', '-q', '--', 'bip32', 'bip39', 'bip44', 'util'])
    d = f'{V}/seeded/{id}'
    tmp = tempfile.mkdtemp(prefix='seedd.', dir='/tmp')
    open(tmp + '/demo_test.go', 'w').write(demo)
    open(tmp + '/demo.sh', 'w').write(DEMO % dict(pkg=pkg, flags=flags + ' ' if flags else '', extra=HMAC if hmac else ''))
    os.chmod(tmp + '/demo.sh', 0o755)
    if hmac: shutil.copy(V + '/harness/overlay/hmac_hook.go', tmp + '/hmac_hook.go')
    why = None
    r = run(['bash', tmp + '/demo.sh'], wt)
    if r.returncode: why = 'demo fails on the unchanged tree:\n' + r.stdout[-1500:]
    if not why:
        for f, a, b in edits:
            p = f'{wt}/{f}'; s = open(p).read()
            if s.count(a) != 1: why = f'edit of {f} matches {s.count(a)} times: {a!r}'; break
            open(p, 'w').write(s.replace(a, b))
    if not why:
        r = run(['gofmt', '-l', 'bip32', 'bip39', 'bip44', 'util'], wt)
        r = run(['go', 'build', './bip32', './bip39/...', './bip44', './util'], wt)
        if r.returncode: why = 'build: ' + r.stdout[-1500:]
    if not why:
        r = run(['go', 'test', '-count=1', './...'], wt)
        if r.returncode: why = 'tests fail:\n' + '\n'.join(l for l in r.stdout.splitlines() if 'FAIL' in l or '_test.go' in l)[:800]
    if not why:
        r = run(['bash', tmp + '/demo.sh'], wt)
        if r.returncode == 0: why = 'demo passes with the change'
        demoout = r.stdout
    if why:
        bad += 1; print(f'-- {id}: {why}')
    else:
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(tmp): shutil.copy(f'{tmp}/{f}', d)
        open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', wt, 'diff', '--', 'bip32', 'bip39', 'bip44', 'util'], text=True))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
        msg = [l.strip() for l in demoout.splitlines() if '_test.go' in l or 'panic' in l or 'DATA RACE' in l]
        print(f'++ {id} kept; demo: {(msg or [demoout[-200:]])[0][:150]}')
    shutil.rmtree(tmp)
shutil.rmtree(wt)
sys.exit(bad > 0)
