#!/bin/bash
# check.sh PROPERTY quick|thorough
# Rebuilds from /repo's working tree and explores one property.
here="$(cd "$(dirname "$0")/.." && pwd)"
prop="$1"; tier="${2:-quick}"; seed="${VERIF_SEED:-1}"
work="$(mktemp -d /tmp/simcheck-build.XXXXXX)" || exit 2
trap 'rm -rf "$work"' EXIT
if ! "$here/bin/build.sh" "$work" >"$work/build.log" 2>&1; then
  cat "$work/build.log" >&2
  echo "check.sh: build failed" >&2
  exit 2
fi
"$work/simcheck" -prop "$prop" -tier "$tier" -seed "$seed" -out "$here/out" -evidence "$here/evidence/$prop.json" "${@:3}"
exit $?
