#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough] [checker flags...]
#        run.sh build
# Decides one property from the source in /repo. Builds the analyser first when
# its binary is missing or older than its source. Works offline.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
build() {
	(cd "$here/checker" && mkdir -p "$here/bin" &&
		GOFLAGS=-mod=vendor GOWORK=off CGO_ENABLED=0 go build -o "$here/bin/checker.$$" . &&
		mv -f "$here/bin/checker.$$" "$here/bin/checker")
}
if [ "$1" = build ]; then
	build
	exit
fi
id=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; shift
if [ ! -x "$here/bin/checker" ] || [ -n "$(find "$here/checker" -name '*.go' -newer "$here/bin/checker" -print -quit)" ]; then
	build || exit 2
fi
exec "$here/bin/checker" -repo "${REPO:-/repo}" -verif "$here" -prop "$id" -tier "$tier" "$@"
