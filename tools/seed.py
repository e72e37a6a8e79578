#!/usr/bin/env python3
"""Plants the bugs listed in seeds.py: writes seeded/<id>/ and verifies each in a scratch copy of /repo.
usage: seed.py [id...]"""
import json, os, subprocess, sys, shutil, tempfile
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
sys.path.insert(0, here)
from seeds import seeds
DEMO = '''#!/bin/bash
# Runs the test beside this file inside the package, through an overlay.
# Run with the repository as working directory.
dir=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$dir" > "$tmp/overlay.json"
%(env)sgo test -count=1 -vet=off -overlay "$tmp/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''
def sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout
checker = os.environ.get("CHECKER", verif + "/bin/checker")
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
want = sys.argv[1:]
for s in seeds:
    if want and s['id'] not in want: continue
    d = os.path.join(verif, 'seeded', s['id'])
    tmp = tempfile.mkdtemp(prefix='seed')
    repo = tmp + '/repo'
    sh(f'cp -a /repo {repo}')
    for (f, old, new) in s['edits']:
        p = os.path.join(repo, f)
        t = open(p).read()
        n = t.count(old)
        if n != s.get('count', 1):
            print(s['id'], 'EDIT MATCHES', n, 'TIMES:', old[:60]); break
        open(p, 'w').write(t.replace(old, new))
    else:
        os.makedirs(d, exist_ok=True)
        rc, diff = sh('git diff', cwd=repo)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO % {'pkg': s['pkg'], 'env': s.get('env', '')})
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo_test.go.txt', 'w').write(s['demo'])
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        rc0, out0 = sh(d + '/demo.sh', cwd='/repo')
        e = '. /opt/vp/env.sh; '
        rcb, outb = sh(e + 'go build ./... && go vet ./... >/dev/null 2>&1; go build ./...', cwd=repo)
        rct, outt = sh(e + 'go test -json ./... 2>/dev/null', cwd=repo)
        ok = set()
        for l in outt.splitlines():
            try: j = json.loads(l)
            except ValueError: continue
            if j.get('Action') == 'pass' and j.get('Test'): ok.add(j['Package'] + '/' + j['Test'])
        missing = [t for t in stable if t not in ok]
        rc1, out1 = sh(d + '/demo.sh', cwd=repo)
        good = rc0 == 0 and rcb == 0 and not missing and rc1 != 0
        caught = {}
        for c in [s['prop']] + s.get('also', []):
            os.makedirs(tmp + '/v/evidence', exist_ok=True)
            open(tmp + '/v/known_findings.txt', 'w').close()
            rcc, outc = sh(f'. /opt/vp/env.sh; {checker} -repo {repo} -verif {tmp}/v -prop {c} -tier quick')
            caught[c] = (rcc, [l[:260] for l in outc.splitlines() if l.startswith(c)][:1], 'VIOLATION property=' + c in outc)
        print(s['id'], 'OK' if good else 'BAD', 'demo-clean', rc0, 'build', rcb, 'missing', missing, 'demo-bug', rc1)
        if rc0: print(out0[-600:])
        if rcb: print(outb[-600:])
        if rc1 and 'demo' in want: print(out1[-300:])
        for c, (r, l, v) in caught.items():
            print('   ', c, 'rc', r, 'caught' if v and r == 1 else 'MISSED', *l)
    shutil.rmtree(tmp)
