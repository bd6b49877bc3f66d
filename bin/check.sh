#!/bin/bash
# bin/check.sh <property> [--replay FILE]
#
# Builds the simulator with the working tree of /repo in it and searches for a
# violation of one property. Exit 0: held on everything explored; 1: violated
# (last line "VIOLATION property=<id> replay=<path>"); 2: no answer.
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick, thorough),
# SIM_SECS (length of the search in seconds).
set -u
ID=${1:?usage: check.sh PROPERTY [--replay FILE]}
shift
VERIF=$(cd "$(dirname "$0")/.." && pwd)
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
REPLAY=
if [ "${1:-}" = --replay ]; then REPLAY=$(realpath -m "${2:?--replay FILE}"); fi
case $TIER in
quick)
    SECS=${SIM_SECS:-55}; SHRINK=40
    case $ID in C01 | C02 | C03 | C10 | C16) SECS=${SIM_SECS:-65} ;; esac
    ;;
*) SECS=${SIM_SECS:-600}; SHRINK=120 ;;
esac
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1
unset GOOS GOARCH GOEXPERIMENT GODEBUG 2>/dev/null
RACE=
case $ID in C01 | C02 | C03 | C10) RACE=-race ;; esac

TMP=$(mktemp -d "${TMPDIR:-/tmp}/simverif.XXXXXX") || exit 2
trap 'rm -rf "$TMP"' EXIT
trap 'exit 2' INT TERM HUP
# the module files are copied so that nothing in /verif is rewritten
cp -r "$VERIF/sim" "$TMP/sim" || exit 2
cd "$TMP/sim" || exit 2
# for trying planted bugs in a copy; the registered checks use /repo
if [ -n "${SIM_REPO:-}" ]; then sed -i "s#=> /repo/Go/sereal#=> $SIM_REPO/Go/sereal#" go.mod; fi
if ! go build -o "$TMP/instr" ./instr; then
    echo "check.sh: the instrumenter does not build" >&2
    exit 2
fi
# Yield points and simulated primitives are added to a copy of the package,
# which replaces the original at compile time only.
ok=
for LEVEL in 2 1 0; do
    rm -rf "$TMP/ov"
    "$TMP/instr" -C "$TMP/sim" -pkg github.com/Sereal/Sereal/Go/sereal -tags clibs -o "$TMP/ov" -level $LEVEL || continue
    if go build $RACE -tags clibs -overlay "$TMP/ov/overlay.json" -o "$TMP/simrun" ./cmd/simrun 2>"$TMP/build.log"; then
        ok=1
        break
    fi
    echo "check.sh: the package does not build with instrumentation level $LEVEL:" >&2
    head -20 "$TMP/build.log" >&2
done
if [ -z "$ok" ]; then
    echo "check.sh: /repo does not build" >&2
    exit 2
fi
ALT=
if [ -n "$RACE" ] && [ -z "$REPLAY" ]; then
    ALT="-alt $TMP/simrun.plain"
    go build -tags clibs -overlay "$TMP/ov/overlay.json" -o "$TMP/simrun.plain" ./cmd/simrun || exit 2
fi
mkdir -p "$VERIF/evidence" "$VERIF/replays"
cd "$VERIF" || exit 2
if [ -n "$REPLAY" ]; then
    "$TMP/simrun" -replay "$REPLAY" -sites "$TMP/ov/sites.txt"
    rc=$?
else
    "$TMP/simrun" -prop "$ID" -seed "$SEED" -tier "$TIER" -secs "$SECS" -shrink "$SHRINK" -procs 8 \
        -dir "$TMP/run" -evidence "${SIM_OUT:-$VERIF}/evidence/$ID.json" -replays "${SIM_OUT:-$VERIF}/replays" \
        -instr "$LEVEL" -sites "$TMP/ov/sites.txt" -verif "$VERIF" $ALT
    rc=$?
fi
case $rc in 0 | 1) exit $rc ;; *) exit 2 ;; esac
