#!/bin/bash
# runseeds.sh [ID...]: runs the check of each planted bug's property against a
# scratch copy of /repo with the bug; prints caught / missed.
. /opt/vp/env.sh
cd /verif/checker && go build -o /tmp/ofxcheck.seeds . || exit 1
one() {
	id=$1
	tmp=$(mktemp -d /tmp/seedrun.XXXXXX)
	mkdir "$tmp/v"
	cp -a /repo "$tmp/repo"; cp /verif/known_findings.txt "$tmp/v/"
	prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
	if git -C "$tmp/repo" apply "/verif/seeded/$id/patch.diff"; then
		out=$(/tmp/ofxcheck.seeds -prop ${ALL:-$prop} -repo "$tmp/repo" -verif "$tmp/v" 2>&1); rc=$?
		if echo "$out" | grep -q "^VIOLATION property=$prop "; then echo "$id $prop caught"; else echo "$id $prop MISSED rc=$rc"; fi
		[ -n "$VERBOSE" ] && echo "$out" | grep -v KNOWN-FINDING | cut -c1-300 | head -${VERBOSE}
	else echo "$id does not apply"; fi
	rm -rf "$tmp"
}
export -f one
[ $# -gt 0 ] || set -- $(ls /verif/seeded)
printf '%s\n' "$@" | xargs -P 4 -I{} bash -c 'one {}'
