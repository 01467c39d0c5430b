#!/bin/bash
# refrun.sh [-P "C01 C02"] DIFF...: run checks on a scratch copy of /repo with a
# behaviour-preserving edit applied; every check must stay quiet (development aid)
cd "$(dirname "${BASH_SOURCE[0]}")/.." || exit 2
. /opt/vp/env.sh
PS=
[ "$1" = -P ] && { PS=$2; shift 2; }
for s in "$@"; do
	s=$(realpath "$s")
	n=$(basename "$s" .diff)
	if [ -z "$PS" ]; then
		case $n in
		R0[1-5]*) P="C02 C05 C06 C08 C09 C11 C12 C13 C21" ;;
		R0[6-9]*|R1[0-3]*) P="C02 C05 C06 C07 C08 C11 C12 C21" ;;
		R1[4-9]*|R2[0-4]*) P="C01 C04 C09 C13 C21" ;;
		R25*|R26*) P="C01 C02 C03 C07 C21" ;;
		*) P="C01 C02 C03 C04 C05 C06 C07 C08 C09 C11 C12 C13 C21" ;;
		esac
	else P=$PS; fi
	d=$(mktemp -d /tmp/seedrun.XXXXXX)
	cp -a /repo "$d/repo"
	mkdir -p "$d/v/checker" "$d/v/bin"; cp bin/checker "$d/v/bin/"
	cp -r "$PWD/checker/overlay" "$d/v/checker/overlay"
	cp known-findings.txt "$d/v/"
	if git -C "$d/repo" apply "$s"; then
		for p in $P; do
			t=$SECONDS
			timeout -s KILL 600 bin/checker -repo "$d/repo" -property "$p" -verif "$d/v" > "$d/out" 2>&1
			rc=$?
			u=$(python3 -c "
import json
e=json.load(open('$d/v/evidence/$p.json'))
print(str(e.get('undecided',e.get('coverage',{}).get('undecided','?')))[:60])" 2>/dev/null)
			echo "$n $p: exit $rc ($((SECONDS-t)) s) $u"
			[ $rc != 0 ] && grep -v "^re-run\|^$" "$d/out" | cut -c1-300 | head -${LINES_MAX:-6}
		done
	fi
	rm -rf "$d"
done
