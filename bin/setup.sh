#!/bin/bash
# setup.sh: builds the simulator once, which checks that the toolchain works
# and fills the Go build cache.
here="$(cd "$(dirname "$0")/.." && pwd)"
work="$(mktemp -d /tmp/simcheck-setup.XXXXXX)" || exit 2
trap 'rm -rf "$work"' EXIT
"$here/bin/build.sh" "$work"
