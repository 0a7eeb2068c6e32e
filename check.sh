#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the analyser and decides one property of /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB='*' GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p "$here/bin" "$here/evidence"
tmp=$(mktemp "$here/bin/build.XXXXXX") || exit 2
(cd "$here/checker" && go build -o "$tmp" .) || { echo "the analyser does not build"; rm -f "$tmp"; exit 2; }
mv -f "$tmp" "$here/bin/goelandcheck.$$"
ulimit -v 16000000
timeout 850 "$here/bin/goelandcheck.$$" -root "$here" -property "$1" -tier "${2:-${VERIF_TIER:-quick}}"
rc=$?
rm -f "$here/bin/goelandcheck.$$"
exit $rc
