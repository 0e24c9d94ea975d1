#!/bin/bash
# Warms the build cache; every check can also build from cold.
. /opt/vp/env.sh
V="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$V/.build" "$V/evidence"
(cd "$V/mc/instr" && go build -o "$V/.build/instr" .) || exit 1
exit 0
