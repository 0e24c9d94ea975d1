#!/bin/bash
# usage: check.sh <property> [quick|thorough] [extra flags for the check binary]
# Rebuilds the check from /repo's working tree and runs it.
. /opt/vp/env.sh
V="$(cd "$(dirname "$0")" && pwd)"
P="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; shift; shift
export VERIF_TIER="$TIER" VERIF_SEED="${VERIF_SEED:-1}"
exec "$V/mc/run.sh" "$V" "$P" "$TIER" "$@"
