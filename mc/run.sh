#!/bin/bash
# Builds (instrumented sources + overlay) and runs one check.
V="$1"; P="$2"; TIER="$3"; shift 3
R="${VERIF_REPO:-/repo}"
B="${VERIF_BUILD:-$V/.build}"
p="$(echo "$P" | tr A-Z a-z)"
mkdir -p "$B"
fail() { echo "check $P: $1" >&2; exit 2; }
(cd "$V/mc/instr" && go build -o "$B/instr" .) || fail "cannot build the instrumenter"
O="$B/$p"; mkdir -p "$O"
"$B/instr" -repo "$R" -mc "$V/mc" -out "$O" || fail "instrumentation failed"
cd "$R" || fail "no repo"
M=github.com/openconfig/gnmi/zz_verif
go build -mod=readonly -overlay "$O/overlay.json" -o "$O/check" $M/checks/$p || fail "build failed"
if [ -e "$V/mc/checks/$p/BINS" ]; then
  # The real programs, for the conformance part.
  mkdir -p "$O/bin"
  go build -mod=readonly -o "$O/bin/" $(cat "$V/mc/checks/$p/BINS") || fail "build of the programs failed"
fi
RB=()
if [ -e "$V/mc/checks/$p/RACE" ] && [ -z "$NORACE" ]; then
  NR="-race=false"
  if GOEXPERIMENT=nosizespecializedmalloc go build -mod=readonly -race -overlay "$O/overlay.json" \
     -gcflags="$M/vrt=$NR" -gcflags="$M/vsync=$NR" -gcflags="$M/vatomic=$NR" -gcflags="$M/vtime=$NR" -gcflags="$M/vh=$NR" -gcflags="$M/vs=$NR" -gcflags="$M/checks/$p=$NR" \
     -o "$O/check.race" $M/checks/$p 2> "$O/race.log"; then
    RB=(-racebin "$O/check.race")
  else
    echo "NOTE: race build failed:"; head -5 "$O/race.log"
  fi
fi
exec "$O/check" -verif "$V" -tier "$TIER" "${RB[@]}" "$@"
