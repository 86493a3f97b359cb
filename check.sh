#!/bin/bash
# Usage: check.sh <property>
#
# Builds the monitors, and the programs that they observe, from the working tree of /repo and runs the monitor of one
# property. VERIF_SEED selects the workload and VERIF_TIER (quick or thorough) its size. All output, except for the
# evidence, goes into scratch directories that are removed afterwards.
ID=$1
HERE=$(cd "$(dirname "$0")" && pwd)
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS="-mod=mod -buildvcs=false" GOSUMDB=off
export CGO_ENABLED=1 LC_ALL=C
B=$(mktemp -d /tmp/hvb.XXXXXX) || exit 2
S=
if [ -d /dev/shm ] && [ -w /dev/shm ]; then
  S=$(mktemp -d /dev/shm/hvs.XXXXXX 2>/dev/null)
fi
[ -n "$S" ] || S=$(mktemp -d /tmp/hvs.XXXXXX) || exit 2
PID=
cleanup() {
  [ -n "$PID" ] && kill -9 -- "$PID" 2>/dev/null
  case "$B" in /tmp/hvb.*) rm -rf "$B" ;; esac
  case "$S" in /tmp/hvs.* | /dev/shm/hvs.*) rm -rf "$S" ;; esac
}
trap cleanup EXIT
trap 'exit 2' INT TERM

cp "$HERE/harness/go.mod" "$HERE/harness/go.sum" "$B/" || exit 2
cd "$HERE/harness" || exit 2
M="-modfile=$B/go.mod"
RACE=
PROGS=
case "$ID" in
  C11 | C18 | C30) RACE=-race PROGS=plugin ;;
  C31) RACE=-race PROGS="talker lookup" ;;
  C12) PROGS=server-race ;;
  C27) PROGS=server ;;
  C14) PROGS="plugin lookup" ;;
  C13 | C15) PROGS=plugin ;;
  C24) PROGS="plugin server" ;;
  C20 | C21 | C22) PROGS=lookup ;;
  C29) PROGS="plugin lookup server" ;;
  C25) PROGS="lookup server" ;;
  C26) PROGS=yaml2json ;;
esac
build() { go build $M "$@" || { echo "cannot build $*"; exit 2; }; }
build $RACE -o "$B/hv" ./cmd/hv
for P in $PROGS; do
  case "$P" in
    plugin) build -o "$B/plugin" ./cmd/plugin ;;
    talker) build -o "$B/talker" ./cmd/talker ;;
    server) build -o "$B/server" github.com/lyraproj/hiera/hieraserver/rest ;;
    server-race) build -race -o "$B/server" github.com/lyraproj/hiera/hieraserver/rest ;;
    lookup) build -o "$B/lookup" github.com/lyraproj/hiera/lookup ;;
    yaml2json) build -o "$B/yaml2json" github.com/lyraproj/hiera/yaml2json ;;
  esac
done
export HV_TMP="$S" VERIF_DIR="$HERE"
"$B/hv" "$ID" 2> "$B/stderr" &
PID=$!
wait "$PID"
RC=$?
PID=
head -c 20000 "$B/stderr" >&2
# The monitors expect every failure that an ordinary caller can handle. It is a violation when code of hiera crashes the
# process: the go routine that is listed first is the one that crashed.
if [ $RC -eq 2 ] && grep -qE '^(panic:|fatal error:|runtime: goroutine stack exceeds)' "$B/stderr" &&
  awk '/^goroutine /{n++} n==1' "$B/stderr" | grep -q 'github.com/lyraproj/hiera/'; then
  mkdir -p "$HERE/evidence/replay"
  cp "$B/stderr" "$HERE/evidence/replay/$ID-crash.txt"
  echo "the code crashed the process: $(grep -m1 -E '^(panic:|fatal error:)' "$B/stderr")"
  echo "VIOLATION property=$ID replay=$HERE/evidence/replay/$ID-crash.txt"
  exit 1
fi
exit $RC
