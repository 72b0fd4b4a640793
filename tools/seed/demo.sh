#!/bin/bash
# Runs the demonstration beside this file inside the package "tests" of the
# repository in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
cat >"$t/overlay.json" <<END
{"Replace": {"$PWD/tests/zz_demo_test.go": "$d/demo_test.go",
             "$PWD/tests/zz_demo_helper_test.go": "$d/helper_test.go"}}
END
go test -vet=off -count=1 -overlay "$t/overlay.json" -run '^TestDemo$' ./tests >"$t/out" 2>&1
rc=$?
tail -c 1500 "$t/out"
exit $rc
