#!/bin/bash
# Runs the in-package test beside this file (put in place by an overlay) against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
pkg=$(sed -n 's|^//pkg: ||p' "$here/demo_test.go.txt")
o=$(mktemp)
echo "{\"Replace\": {\"$PWD/src/$pkg/zz_demo_test.go\": \"$here/demo_test.go.txt\"}}" > "$o"
cd src && timeout 200 go test -vet=off -count=1 -overlay "$o" -run 'TestZZDemo' "./$pkg"
rc=$?
rm -f "$o"
exit $rc
