#!/bin/bash
# Builds every harness once, so that a check only rebuilds what changed.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" HOME="${HOME:-/root}"
rc=0
for id in $(awk '{print $1}' "$here/checks.txt"); do
  VERIF_BUILD_ONLY=1 "$here/check.sh" "$id" || rc=1
done
exit $rc
