#!/bin/bash
# usage: check.sh ID [quick|thorough]   decide one property on the current /repo tree
#        check.sh -replay FILE          repeat a reported violation with a full log
#        check.sh -setup                warm the build cache
V=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
. /opt/vp/env.sh
umask 022
W=$(mktemp -d /tmp/mccheck.XXXXXX) || exit 2
chmod 711 "$W"
trap 'rm -rf "$W"' EXIT
trap 'exit 2' INT TERM
# the explorer of the instrumented packages
build() {
  (cd "$V/tools/instr" && GOFLAGS= go build -o "$W/instr" .) || return 1
  "$W/instr" -repo "$REPO" -out "$W/o" -vsim "$V/vsim" || return 1
  # with the command line in it, or without it if its globals are not what they were
  (cd "$REPO" && go build -tags vsimprog -modfile="$W/o/go.mod" -overlay "$W/o/program.json" -o "$W/mc" ./vsim/mc) 2>"$W/prog.err" && return 0
  echo "the command line is explored only as a binary: $(tail -1 "$W/prog.err" | cut -c1-160)" >&2
  (cd "$REPO" && go build -modfile="$W/o/go.mod" -overlay "$W/o/overlay.json" -o "$W/mc" ./vsim/mc) || return 1
}
# the explorer of the real program, and the program
build_bb() {
  {
    sep=
    echo '{"Replace":{'
    for f in "$V"/bb/*.go; do
      echo "$sep\"$REPO/vsimbb/${f##*/}\":\"$f\""
      sep=,
    done
    echo '}}'
  } >"$W/bb.json"
  (cd "$REPO" && go build -overlay "$W/bb.json" -o "$W/bb" ./vsimbb && go build -o "$W/hcx" ./cmd/horcrux) || return 1
}
fail() {
  echo "cannot build the checked tree" >&2
  exit 2
}
build || fail
if [ "$1" = -setup ]; then
  build_bb || fail
  exit 0
fi
cd "$W" || exit 2
if [ "$1" = -replay ]; then
  f=$(realpath "$2" 2>/dev/null || echo "$2")
  if grep -q '"job": "binary: ' "$f"; then
    build_bb || fail
    "$W/bb" -bin "$W/hcx" -fixtures "$V/bb/fixtures" -replay "$f"
  else
    "$W/mc" -replay "$f"
  fi
  exit $?
fi
id=$1
tier=${2:-${VERIF_TIER:-quick}}
mcb=150 bbb=0
[ "$tier" = thorough ] && mcb=780
case "$id" in
C06 | C09 | C10 | C20) bbb=100; [ "$tier" = thorough ] && mcb=480 bbb=280 ;;
C13 | C14 | C15 | C16 | C21 | C22) bbb=240; [ "$tier" = thorough ] && bbb=720 ;;
esac
extra=()
if [ "$bbb" != 0 ]; then
  build_bb || fail
  "$W/bb" -check "$id" -tier "$tier" -budget "${BBUDGET:-$bbb}" -bin "$W/hcx" -fixtures "$V/bb/fixtures" -out "$W/extra.json" || exit 2
  extra=(-extra "$W/extra.json")
fi
"$W/mc" -check "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" -budget "${BUDGET:-$mcb}" -evidence "$V/evidence/$id.json" -out "$V/evidence/replays" -known "$V/known_findings.txt" "${extra[@]}"
