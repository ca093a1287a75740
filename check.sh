#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the checker outside of /verif and /repo and decides the property from
# /repo's current source.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d "${TMPDIR:-/tmp}/ofxcheck.XXXXXX") || exit 1
trap 'rm -rf "$tmp"' EXIT
if ! (cd "$here/checker" && go build -o "$tmp/ofxcheck" .) >"$tmp/log" 2>&1; then
	cat "$tmp/log"
	mkdir -p "$here/evidence"
	cp "$tmp/log" "$here/evidence/$prop.violations.txt"
	echo "the checker does not build"
	echo "VIOLATION property=$prop replay=$here/evidence/$prop.violations.txt"
	exit 1
fi
"$tmp/ofxcheck" -prop "$prop" -tier "$tier" -repo "${OFXCHECK_REPO:-/repo}" -verif "$here"
rc=$?
[ $rc -eq 0 ] || rc=1
exit $rc
