#!/bin/bash
# refgen.sh T[+T...] [FUNC...]: applies rewrites of tools/refgen everywhere in
# a scratch copy of /repo, runs its tests and (PROPS or) all checks; all must be quiet.
. /opt/vp/env.sh
tmp=$(mktemp -d /tmp/refgen.XXXXXX); mkdir $tmp/v; cp -a /repo $tmp/repo; cp /verif/known_findings.txt $tmp/v/
for t in $(echo $1 | tr + " "); do /tmp/refgen $tmp/repo $t "${@:2}" || { echo "$*: CRASH"; rm -rf $tmp; exit; }; done
cd $tmp/repo
if ! out=$(go vet ./... 2>&1 && go test ./... 2>&1); then echo "$*: BAD EDIT"; echo "$out" | head -${N:-6}; [ -n "$KEEP" ] || rm -rf $tmp; exit; fi
echo "$*: $(git diff --stat | tail -1)"
for p in $(echo ${PROPS:-all} | tr , ' '); do ${OFXCHECK:-/tmp/ofxcheck} -prop $p -repo $tmp/repo -verif $tmp/v 2>&1 | grep -v ': all hold\|^KNOWN' | cut -c1-${W:-260} | head -${N:-30}; done
[ -n "$KEEP" ] && echo $tmp || rm -rf $tmp
