#!/usr/bin/env python3
"""mkseed.py SPEC.py: builds and validates planted bugs from a spec file (development aid).

SPEC defines SEEDS: a list of dicts id, property, needs, what, edits [(file, old, new)], demo (Go test source
with func TestSeed), pkg (package directory, default '.')."""
import json, os, shutil, subprocess, sys, tempfile
DEMO = '''#!/bin/bash
# Runs TestSeed of demo_test.go inside the package %(pkg)s of the current directory.
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_seed_test.go" "$d/demo_test.go" > "$t/o.json"
go test -overlay "$t/o.json" -vet=off -count=1 -timeout 120s -run '^TestSeed$' ./%(pkg)s
'''
env = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', CGO_ENABLED='0')
def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    out = '/verif/seeded/' + s['id']
    if os.path.exists(out) and not only: continue
    w = tempfile.mkdtemp(prefix='seed') + '/repo'
    try:
        shutil.copytree('/repo', w, symlinks=True)
        for f, old, new in s['edits']:
            p = w + '/' + f
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'BAD EDIT', f, t.count(old)); break
            open(p, 'w').write(t.replace(old, new))
        else:
            d = tempfile.mkdtemp(prefix='seedd')
            open(d + '/patch.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=w, stdout=subprocess.PIPE, text=True).stdout)
            open(d + '/demo.sh', 'w').write(DEMO % {'pkg': s.get('pkg', '.')})
            os.chmod(d + '/demo.sh', 0o755)
            open(d + '/demo_test.go', 'w').write(s['demo'])
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
            b = run(['go', 'build', './...'], w)
            t = run(['go', 'test', '-vet=off', '-count=1', './...'], w)
            bad = run(['bash', d + '/demo.sh'], w)
            good = run(['bash', d + '/demo.sh'], '/repo')
            okk = b.returncode == 0 and t.returncode == 0 and bad.returncode != 0 and good.returncode == 0
            print(s['id'], 'OK' if okk else 'NO', 'build', b.returncode, 'tests', t.returncode, 'demo patched', bad.returncode, 'clean', good.returncode)
            if b.returncode: print(b.stdout[-800:])
            if t.returncode: print([l for l in t.stdout.split('\n') if 'FAIL' in l][:8])
            if good.returncode: print(good.stdout[-1500:])
            if okk and '[build failed]' in bad.stdout: print('  demo build failed', bad.stdout[-500:]); okk = False
            if okk:
                print('   ', ' / '.join(l.strip() for l in bad.stdout.split('\n') if l.strip() and not l.startswith(('FAIL','---','exit')))[:200])
                shutil.rmtree(out, ignore_errors=True)
                os.makedirs('/verif/seeded', exist_ok=True)
                shutil.copytree(d, out)
            shutil.rmtree(d)
    finally:
        shutil.rmtree(os.path.dirname(w))
