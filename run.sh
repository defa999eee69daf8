#!/bin/bash
# run.sh PROPERTY TIER: decide one property on /repo's current working tree.
# 0: held on everything explored. 1: VIOLATION line. Anything else: the check itself failed.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
tier="${2:-quick}"
mkdir -p "$here/evidence"
rm -f "$here/evidence/$id.json"
if ! (flock 9; bash "$here/build.sh") 9>"$here/harness/.lock"; then
  echo "the harness does not build against /repo" >&2
  exit 2
fi
ulimit -v 26000000 2>/dev/null
ulimit -c 0
export HMC_VERIF="$here"
exec "$here/harness/target/release/hmc" check "$id" "$tier"
