#!/usr/bin/env python3
"""Development aid: behaviour-preserving edits (refactors.py) on which every check must stay quiet.
usage: refactor.py [-p PROPS] [id...]"""
import json, os, subprocess, sys, shutil, tempfile, time
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
sys.path.insert(0, here)
from refactors import refactors
def sh(cmd, cwd=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout
checker = os.environ.get('CHECKER', verif + '/bin/checker')
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
args = sys.argv[1:]
props = 'all'
if args and args[0] == '-p':
    props = args[1]; args = args[2:]
for s in refactors:
    if args and s['id'] not in args: continue
    tmp = tempfile.mkdtemp(prefix='refac')
    repo = tmp + '/repo'
    sh(f'cp -a /repo {repo}')
    bad = False
    for (f, old, new) in s['edits']:
        p = os.path.join(repo, f)
        if old == '':  # a new file
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(new); continue
        t = open(p).read()
        n = t.count(old)
        if n == 0:
            print(s['id'], 'EDIT MATCHES', n, 'TIMES:', old[:60]); bad = True; break
        open(p, 'w').write(t.replace(old, new))
    if not bad:
        e = '. /opt/vp/env.sh; '
        rcb, outb = sh(e + 'go build ./... && GOARCH=386 go build ./...', cwd=repo)
        if rcb: print(s['id'], 'DOES NOT BUILD', outb[-800:]); bad = True
    if not bad:
        rct, outt = sh(e + 'go test -json ./... 2>/dev/null', cwd=repo)
        ok = set()
        for l in outt.splitlines():
            try: j = json.loads(l)
            except ValueError: continue
            if j.get('Action') == 'pass' and j.get('Test'): ok.add(j['Package'] + '/' + j['Test'])
        missing = [t for t in stable if t not in ok]
        if missing: print(s['id'], 'FAILS TESTS', missing); bad = True
    if not bad:
        os.makedirs(tmp + '/v/evidence', exist_ok=True)
        open(tmp + '/v/known_findings.txt', 'w').close()
        t0 = time.time()
        rc, out = 0, ''
        pl = props
        if props == 'auto':
            pl = []
            for f, _, _ in s['edits']:
                pl += {'binary16': 'C01 C06 C10 C11 C14 C15 C16 C22', 'binary128': 'C03 C07 C10 C11 C14 C15', 'float80x86': 'C04 C08 C10 C11 C12 C14 C15',
                    'float128ppc': 'C05 C09 C10 C11 C14 C15', 'bfloat': 'C02', 'float.go': 'C16', 'internal': 'C21 C22 C23' if 'strconv' in f else ''}[f.split('/')[0]].split()
            pl = ','.join(sorted(set(pl)) + ['C12', 'C13', 'C17', 'C18', 'C19', 'C20', 'C26'])
        for pr in pl.split(','):
            pk = {f.split('/')[0] for f, o, _ in s['edits'] if o}
            goal = ''
            if props == 'auto' and pr in ('C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C17', 'C18', 'C19', 'C20', 'C26') and len(pk) == 1:
                goal = '-goal ' + pk.pop() + '.'
            rc1, out1 = sh(f'. /opt/vp/env.sh; timeout 900 {checker} -repo {repo} -verif {tmp}/v -prop {pr} -tier quick {goal}')
            rc |= rc1; out += out1
        print(s['id'], 'QUIET' if rc == 0 else 'ALARM', '%.0f s' % (time.time() - t0), flush=True)
        seen = set()
        for l in [l for l in out.splitlines() if 'UNDECIDED' in l][:6]: print('    ', l[:420], flush=True)
        slow = [l for l in out.splitlines() if 'held' in l and float(l.rsplit('(',1)[1].split()[0]) > 60]
        for l in slow: print('    slow', l[:200])
        if rc:
            for l in out.splitlines():
                k = l[:4]
                if l.startswith('C') and ': held' not in l and k not in seen:
                    seen.add(k); print('    ', l[:420], flush=True)
    shutil.rmtree(tmp)
