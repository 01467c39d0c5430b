#!/bin/bash
# check.sh PROPERTY: decide one property of /repo (see DESIGN.md)
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
if [ ! -x bin/checker ] || [ -n "$(find checker -newer bin/checker -name '*.go' -not -path '*/vendor/*' -print -quit)" ]; then
	bash setup.sh || exit 2
fi
exec bin/checker -property "$1" -verif "$PWD"
