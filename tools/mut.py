#!/usr/bin/env python3
"""mut.py PROPS FILE OLD NEW [COUNT]: runs checks on a scratch copy with one replacement."""
import sys, subprocess, tempfile, shutil, os
props, f, old, new = sys.argv[1:5]
tmp = tempfile.mkdtemp(prefix='mut.')
try:
    subprocess.run(['cp', '-a', '/repo', tmp + '/repo'], check=True)
    os.mkdir(tmp + '/v'); shutil.copy('/verif/known_findings.txt', tmp + '/v/')
    p = tmp + '/repo/' + f
    t = open(p).read()
    old = old.encode().decode('unicode_escape'); new = new.encode().decode('unicode_escape')
    n = t.count(old)
    if n == 0: sys.exit('no match: ' + old)
    if n > 1: print('(%d matches, first replaced)' % n)
    open(p, 'w').write(t.replace(old, new, 1))
    b = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; go build ./...'], cwd=tmp + '/repo', capture_output=True, text=True)
    if b.returncode: sys.exit('does not build: ' + b.stderr[:600])
    for q in props.split(','):
        r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; /tmp/ofxcheck -prop %s -repo %s/repo -verif %s/v' % (q, tmp, tmp)], capture_output=True, text=True)
        out = [l[:260] for l in (r.stdout + r.stderr).splitlines() if 'KNOWN' not in l]
        print(q, 'rc=%d' % r.returncode, *out[:int(os.environ.get('N', '3'))], sep='\n   ')
finally:
    shutil.rmtree(tmp, ignore_errors=True)
