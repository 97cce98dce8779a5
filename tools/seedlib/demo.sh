#!/bin/bash
# runs the demonstration beside this file inside package ./signer of the tree in the current directory
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
R='"'$PWD/signer/zz_demo_test.go'": "'$D/demo_test.go'"'
[ -f "$D/helper_test.go" ] && R="$R, "'"'$PWD/signer/zz_helper_test.go'": "'$D/helper_test.go'"'
echo '{"Replace": {'"$R"'}}' > "$T/overlay.json"
TMPDIR="$T" timeout 250 go test -vet=off -overlay "$T/overlay.json" -run 'TestDemo' -count=1 ./signer
