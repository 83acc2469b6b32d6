#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds the simulator from /repo's working tree and searches for violations.
# exit 0: held, 1: violation (line VIOLATION property=... replay=...), anything else: the check itself failed
cd "$(dirname "$0")" || exit 2
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
case "$tier" in quick) secs=300 ;; thorough) secs=780 ;; *) echo "unknown tier $tier" >&2; exit 2 ;; esac
case "$seed" in ''|*[!0-9]*) seed=1 ;; esac
mkdir -p evidence replays build
if ! ./build.sh > build/build.log 2>&1; then
  tail -n 40 build/build.log >&2
  echo "the simulator could not be built" >&2
  exit 3
fi
workers="$(nproc 2>/dev/null || echo 4)"
./build/genexsim explore "$id" --tier "$tier" --seed "$seed" --time "$secs" --workers "$workers" \
  --known known-findings.txt --evidence "evidence/$id.json" --replays replays
rc=$?
[ "$rc" -le 1 ] || rc=$((rc + 10))
exit "$rc"
