#!/usr/bin/env python3
"""seed.py SPEC.py...: confirms planted bugs in a scratch copy of /repo and keeps
the confirmed ones under /verif/seeded/<id>/.

A SPEC file defines SEEDS, a list of dicts: id, property, needs, what_it_breaks,
edits [(file, old, new)], demo (Go test source with func TestSeedDemo),
pkg ('.' or './cmd/ofx')."""
import json, os, shutil, subprocess, sys, tempfile, runpy

DEMO = '''#!/bin/bash
# Fails (nonzero) when the planted change is present; run in /repo.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%(dir)szz_seed_demo_test.go":"%%s/demo.go.txt"}}' "$PWD" "$here" >"$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run 'TestSeedDemo' %(pkg)s
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, capture_output=True, text=True, **kw)

def passed(cwd):
    r = sh('go test -json -vet=off -count=1 ./...', cwd)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Action') == 'pass' and 'Test' in e: ok.add(e['Package'] + '/' + e['Test'])
    return ok

stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def one(s):
    tmp = tempfile.mkdtemp(prefix='seed.')
    try:
        repo = tmp + '/repo'
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        d = tmp + '/d'; os.mkdir(d)
        pkg = s.get('pkg', '.')
        sub = '' if pkg == '.' else pkg[2:] + '/'
        open(d + '/demo.sh', 'w').write(s.get('demo_sh') or DEMO % {'dir': sub, 'pkg': pkg})
        if 'demo' in s: open(d + '/demo.go.txt', 'w').write(s['demo'])
        r = sh('bash %s/demo.sh' % d, repo, timeout=300)
        if r.returncode != 0: return 'demo fails on the unchanged tree:\n' + (r.stdout + r.stderr)[-1500:]
        for f, old, new in s['edits']:
            p = repo + '/' + f
            t = open(p).read()
            if t.count(old) != 1: return '%s: %d matches of %r' % (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        r = sh('go build ./... && go vet . ./cmd/ofx', repo)
        if r.returncode != 0: return 'does not build: ' + r.stderr[-800:]
        miss = stable - passed(repo)
        if miss: return 'existing tests fail: %s' % sorted(miss)[:5]
        r = sh('bash %s/demo.sh' % d, repo, timeout=300)
        if r.returncode == 0: return 'demo passes with the change'
        if 'build failed' in r.stdout + r.stderr: return 'demo does not build'
        patch = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(patch)
        json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
        out = '/verif/seeded/' + s['id']
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        return None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

only = set(os.environ.get('ONLY', '').split())
for spec in sys.argv[1:]:
    for s in runpy.run_path(spec)['SEEDS']:
        if only and s['id'] not in only: continue
        e = one(s)
        print(s['id'], s['property'], 'kept' if e is None else 'NOT KEPT: ' + e, flush=True)
