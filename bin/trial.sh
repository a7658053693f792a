#!/bin/bash
# trial.sh COPY RUNS PROP...: development aid. Builds the simulator against the
# scratch copy COPY of /repo and runs the given properties, printing one line each.
here="$(cd "$(dirname "$0")/.." && pwd)"
copy="$1"; runs="$2"; shift 2
w="$(mktemp -d /tmp/trial.XXXXXX)"
if ! SIM_REPO="$copy" "$here/bin/build.sh" "$w" >"$w/log" 2>&1; then echo "BUILD FAILED"; tail -5 "$w/log"; rm -rf "$w"; exit 2; fi
for p in "$@"; do
  "$w/simcheck" -prop "$p" -runs "$runs" -out "$w/out" -evidence "$w/ev.json" >"$w/o" 2>&1
  rc=$?
  echo "$p rc=$rc $(grep -o 'run=[0-9]*' "$w/o" | head -1) $(grep -m1 -A1 '^violation' "$w/o" | cut -c1-160 | head -1)"
  [ $rc -gt 1 ] && tail -5 "$w/o"
done
rm -rf "$w"
