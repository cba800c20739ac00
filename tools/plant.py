#!/usr/bin/env python3
"""plant.py SPEC.py: builds /verif/seeded/<id> from a specification and confirms it in a scratch copy of /repo.
A specification sets id, prop, needs, breaks, edits=[(file, old, new)], and either test=(package dir, Go test source)
or demo=(shell text, {file: text})."""
import sys, os, subprocess, json, tempfile, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
out = '/verif/seeded/' + spec['id']
tmp = tempfile.mkdtemp(prefix='plant')
env = dict(os.environ)
def sh(cmd, cwd):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, capture_output=True, text=True)
try:
    w = tmp + '/repo'
    shutil.copytree('/repo', w, symlinks=True)
    base = subprocess.run(['git', '-C', w, 'show', '1a766ba:./'], capture_output=True)
    for f, old, new in spec['edits']:
        s = open(w + '/' + f).read()
        if s.count(old) != 1:
            sys.exit('%s: %d occurrences of %r' % (f, s.count(old), old))
        open(w + '/' + f, 'w').write(s.replace(old, new))
    # the changed lines must be lines of the original repository
    for f, old, new in spec['edits']:
        o = subprocess.run(['git', '-C', w, 'show', '1a766ba:' + f], capture_output=True, text=True).stdout.splitlines()
        a, b = old.splitlines(), new.splitlines()
        mine = [l for l in a if l.strip() and l not in b and l not in o]
        if mine: print('WARNING lines not in the original:', mine)
    diff = sh('git diff', w).stdout
    os.makedirs(out, exist_ok=True)
    for fn in os.listdir(out): os.remove(out + '/' + fn)
    open(out + '/patch.diff', 'w').write(diff)
    files = {}
    if 'test' in spec:
        pkg, src = spec['test']
        files['demo_test.go'] = src
        sht = '''#!/bin/bash
# Runs a test of this folder inside the package, against the tree in the current directory.
. /opt/vp/env.sh 2>/dev/null
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) && trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%%s/%s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" > "$t/overlay.json"
go test -count=1 -overlay "$t/overlay.json" -run 'TestDemo' %s ./%s
''' % (pkg, spec.get('flags', ''), pkg)
    else:
        sht, files = spec['demo']
    open(out + '/demo.sh', 'w').write(sht)
    for n, t in files.items(): open(out + '/' + n, 'w').write(t)
    json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    r = sh('. /opt/vp/env.sh 2>/dev/null; go build ./... && go vet ./transform ./jsonschema ./generate . 2>&1 | tail -5', w)
    print('build', r.returncode, r.stdout[-500:], r.stderr[-1500:])
    if r.returncode: sys.exit('does not build')
    r = sh('. /opt/vp/env.sh 2>/dev/null; go test -json -count=1 ./... 2>/dev/null', w)
    passed = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Action') == 'pass' and e.get('Test'): passed.add((e['Package'], e['Test']))
    b = json.load(open('/opt/vp/BASELINE.json'))
    names = b['stable']
    flat = {'%s/%s' % p for p in passed} | {'%s::%s' % p for p in passed} | {'%s.%s' % p for p in passed} | {'%s %s' % p for p in passed}
    miss = [n for n in names if (n if isinstance(n, str) else n.get('id', n.get('name'))) not in flat]
    print('baseline tests', len(names), 'missing', len(miss), miss[:6])
    rp = sh('bash %s/demo.sh' % out, w)
    rc = sh('git apply -R %s/patch.diff && bash %s/demo.sh' % (out, out), w)
    print('demo patched:', rp.returncode, '| clean:', rc.returncode)
    print((rp.stdout + rp.stderr)[-700:])
    if rc.returncode: print('CLEAN', (rc.stdout + rc.stderr)[-1500:])
    ok = not miss and rp.returncode and not rc.returncode
    print('RESULT', spec['id'], 'OK' if ok else 'REJECTED')
    if not ok and '--keep' not in sys.argv: shutil.rmtree(out)
finally:
    shutil.rmtree(tmp)
