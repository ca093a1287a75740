#!/usr/bin/env python3
"""mutrun.py COUNT JOBS [SEED] [FILE-REGEX]: applies random mutations from /tmp/muts.jsonl
(tools/mutgen) that build and pass the tests, and prints those no check reports."""
import json, random, sys, os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
count, jobs = int(sys.argv[1]), int(sys.argv[2])
random.seed(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
pat = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
ms = [json.loads(l) for l in open('/tmp/muts.jsonl')]
ms = [m for m in ms if m['Op'] != 'string' and pat.search(m['File'] + ' ' + m['Func'])]
by = {}
for m in ms: by.setdefault((m['File'], m['Op'].split()[0]), []).append(m)
# every kind of mutation of every file has the same chance
pick = []
ks = list(by)
while len(pick) < count * 6 and any(by.values()):
    k = random.choice(ks)
    if by[k]: pick.append(by[k].pop(random.randrange(len(by[k]))))
left = [count]
def one(m):
    if left[0] <= 0: return
    t = tempfile.mkdtemp(prefix='mut.')
    try:
        subprocess.run(['cp', '-a', '/repo', t + '/repo'], check=True); os.mkdir(t + '/v'); shutil.copy('/verif/known_findings.txt', t + '/v/')
        p = t + '/repo/' + m['File']; s = open(p, 'rb').read()
        new = s[:m['From']] + m['New'].encode() + s[m['To']:]
        open(p, 'wb').write(new)
        b = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; go vet ./... && go test ./...'], cwd=t + '/repo', capture_output=True, timeout=300)
        if b.returncode: return
        if left[0] <= 0: return
        left[0] -= 1
        r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; OFXCHECK_FIRST=1 /tmp/ofxcheck -prop all -repo %s/repo -verif %s/v' % (t, t)], capture_output=True, text=True, timeout=900)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        what = '%s:%d %s [%s] %r -> %r' % (m['File'], m['Line'], m['Func'], m['Op'], s[m['From']:m['To']].decode()[:70], m['New'][:50])
        print(('caught %s ' % v[0].split()[1] if v else 'SURVIVED rc=%d ' % r.returncode) + what, flush=True)
    except Exception as e: print('ERR', m['File'], m['Line'], e, flush=True)
    finally: shutil.rmtree(t, ignore_errors=True)
with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, pick))
