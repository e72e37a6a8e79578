#!/usr/bin/env python3
"""Development aid: runs the checks on small mutants of /repo that build and pass the stable tests.
usage: mutants.py OUT.jsonl SHARD/OF FILE... (SKIP=LO-HI in the environment leaves out these lines)"""
import json, os, subprocess, sys, shutil, tempfile, random
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checker = os.environ.get('CHECKER', verif + '/bin/checker')
def sh(cmd, cwd=None, t=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return p.returncode, p.stdout
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
out, shard, files = sys.argv[1], sys.argv[2], sys.argv[3:]
i, n = map(int, shard.split('/'))
props = {'binary16': 'C01 C06 C10 C11 C12 C13 C14 C16 C17 C18', 'binary128': 'C03 C07 C10 C11 C12 C13 C14 C17 C18', 'float80x86': 'C04 C08 C10 C11 C12 C13 C14 C17 C18',
    'float128ppc': 'C05 C09 C10 C11 C12 C13 C14 C17 C18', 'bfloat': 'C02 C12 C17 C18', 'float.go': 'C16', 'internal': 'C21 C22 C23'}
e = '. /opt/vp/env.sh; '
rc, o = sh('/tmp/mutate ' + ' '.join(files), cwd='/repo')
ms = [json.loads(l) for l in o.splitlines()]
if os.environ.get('SKIP'):
    lo, hi = map(int, os.environ['SKIP'].split('-'))
    ms = [m for m in ms if not lo <= open('/repo/' + m['file'], 'rb').read()[:m['From']].count(b'\n') + 1 <= hi]
random.Random(7).shuffle(ms)
ms = ms[i::n]
tmp = tempfile.mkdtemp(prefix='mutants')
repo = tmp + '/repo'
sh(f'cp -a /repo {repo}')
os.makedirs(tmp + '/v/evidence'); open(tmp + '/v/known_findings.txt', 'w').close()
done = set()
if os.path.exists(out):
    for l in open(out):
        j = json.loads(l); done.add((j['file'], j['From'], j['To'], j['New']))
f = open(out, 'a')
for m in ms:
    if (m['file'], m['From'], m['To'], m['New']) in done: continue
    p = repo + '/' + m['file']
    src = open('/repo/' + m['file'], 'rb').read()
    new = src[:m['From']] + m['New'].encode() + src[m['To']:]
    open(p, 'wb').write(new)
    try:
        rc, o = sh(e + 'go build ./...', cwd=repo)
        if rc: m['res'] = 'nobuild'; continue
        rc, o = sh(e + 'go test -json -timeout 60s ./... 2>/dev/null', cwd=repo, t=200)
        ok = set()
        for l in o.splitlines():
            try: j = json.loads(l)
            except ValueError: continue
            if j.get('Action') == 'pass' and j.get('Test'): ok.add(j['Package'] + '/' + j['Test'])
        if [t for t in stable if t not in ok]: m['res'] = 'tests'; continue
        pk = m['file'].split('/')[0]
        m['res'] = 'MISSED'; m['out'] = []
        for c in props[pk].split():
            goal = '-goal %s.' % pk if c in ('C10', 'C11', 'C14', 'C12', 'C13', 'C17', 'C18') else ''
            rc, o = sh(e + f'timeout 900 {checker} -repo {repo} -verif {tmp}/v -prop {c} -tier quick {goal}')
            if rc == 1 and 'VIOLATION property=' in o:
                unc = all('[not certain]' in l for l in o.splitlines() if l.startswith(c + ':') and 'undecided' not in l)
                m['res'] = 'caught'; m['by'] = c; m['unsure'] = unc
                m['out'] = [l[:300] for l in o.splitlines() if l.startswith(c)][:2]
                break
            if 'UNDECIDED' in o or rc not in (0, 1): m['out'].append((c, rc, [l[:300] for l in o.splitlines() if l.startswith(c)][:2]))
        else:
            if m['out']: m['res'] = 'UNDECIDED'
    finally:
        m['old'] = src[m['From']:m['To']].decode()
        f.write(json.dumps(m) + '\n'); f.flush()
        open(p, 'wb').write(src)
shutil.rmtree(tmp)
