#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [extra harness flags]
# Builds the harness against /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
mkdir -p "$VERIF/.build"
race=
case $prop in C40) race=-race;; esac
ov=$VERIF/.build/overlay.json
cat > "$ov" <<J
{"Replace":{"/repo/expreduce/rubi_snapshot/rubi_resources.go":"$VERIF/harness/stub/rubi_resources.go"}}
J
bin=$VERIF/.build/harness$race
(cd harness && go build $race -overlay "$ov" -o "$bin" .) || { echo "build failed" >&2; exit 2; }
case $prop in C19|C33|C38|build)
  (cd /repo && go build -buildvcs=false -overlay "$ov" -o "$VERIF/.build/expreduce" .) || { echo "build failed" >&2; exit 2; }
  export VERIF_CLI=$VERIF/.build/expreduce;;
esac
[ "$tier" = build ] && exit 0
exec "$bin" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -known "$VERIF/known-findings.json" \
  -evidence "$VERIF/evidence/$prop.json" -replays "$VERIF/replays" "$@"
