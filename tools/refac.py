#!/usr/bin/env python3
"""refac.py [names]: applies each behaviour-preserving edit of tools/refactors/*.py
to a scratch copy, runs the repository's tests and every check; all must stay quiet."""
import sys, subprocess, tempfile, shutil, os, glob, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
R = []
def refactor(name, *edits): R.append((name, edits))
for g in sorted(glob.glob(here + '/refactors/*.py')):
    exec(compile(open(g).read(), g, 'exec'))
props = os.environ.get('PROPS', 'all')
def run(r):
    name, edits = r
    tmp = tempfile.mkdtemp(prefix='refac.')
    try:
        subprocess.run(['cp', '-a', '/repo', tmp + '/repo'], check=True)
        os.mkdir(tmp + '/v'); shutil.copy('/verif/known_findings.txt', tmp + '/v/')
        for f, old, new in edits:
            p = f'{tmp}/repo/{f}'
            t = open(p).read()
            if old is None: t += new
            elif t.count(old) < 1: return name, 'no match in ' + f + ': ' + old[:60]
            else: t = t.replace(old, new, 1)
            open(p, 'w').write(t)
        b = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; gofmt -l . ; go vet ./... && go test ./... 2>&1 | grep -v "no test files"'], cwd=tmp + '/repo', capture_output=True, text=True)
        if b.returncode or 'FAIL' in b.stdout: return name, 'BAD EDIT ' + (b.stdout + b.stderr)[:500]
        out = []
        for p in props.split(','):
            r = subprocess.run(['bash', '-c', f'. /opt/vp/env.sh; /tmp/ofxcheck -prop {p} -repo {tmp}/repo -verif {tmp}/v'], capture_output=True, text=True)
            if r.returncode:
                out += [l[:300] for l in (r.stdout + r.stderr).splitlines() if not l.startswith('KNOWN') and 'all hold' not in l]
        return name, '\n     '.join(out[:int(os.environ.get('N', '8'))]) or 'quiet'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
todo = [r for r in R if len(sys.argv) < 2 or r[0] in sys.argv[1:]]
with cf.ThreadPoolExecutor(4) as ex:
    for n, res in ex.map(run, todo): print(n + ':', res, flush=True)
