#!/bin/bash
# bash run.sh PROPERTY [quick|thorough]: builds simstd and the harness against /repo's working tree and explores.
# Exit 0: held on everything explored; 1: a VIOLATION line was printed; 2: the check could not give an answer.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
[ -n "${2:-}" ] && export VERIF_TIER="$2"
LOG=$(mktemp)
BIN=$(bash sim/build.sh 2>"$LOG" | tail -1)
if [ -z "$BIN" ] || [ ! -x "$BIN" ]; then
  echo "harness does not build against /repo:"; tail -40 "$LOG"; rm -f "$LOG"; exit 2
fi
rm -f "$LOG"
exec "$BIN" check "$1"
