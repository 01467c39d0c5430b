#!/bin/bash
# seedrun.sh [-p PROPERTY] SEED...: run the check of a planted bug's property on a
# scratch copy of /repo with the bug applied (development aid; no check uses it)
cd "$(dirname "${BASH_SOURCE[0]}")/.." || exit 2
. /opt/vp/env.sh
P=
[ "$1" = -p ] && { P=$2; shift 2; }
for s in "$@"; do
	d=$(mktemp -d /tmp/seedrun.XXXXXX)
	cp -a /repo "$d/repo"
	mkdir -p "$d/v/checker" "$d/v/bin"; cp bin/checker "$d/v/bin/"
	cp -r "$PWD/checker/overlay" "$d/v/checker/overlay"
	cp known-findings.txt "$d/v/"
	p=${P:-$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")}
	if git -C "$d/repo" apply "$PWD/seeded/$s/patch.diff"; then
		t=$SECONDS
		bin/checker -repo "$d/repo" -property "$p" -verif "$d/v" > "$d/out" 2>&1
		rc=$?
		echo "$s: exit $rc ($((SECONDS-t)) s)"
		grep -v "^VIOLATION\|^re-run\|^$" "$d/out" | cut -c1-220 | head -${LINES_MAX:-6}
	fi
	rm -rf "$d"
done
