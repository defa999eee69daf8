#!/bin/bash
# replay.sh PROPERTY TIER SPACE INDEX: run a single case of a space again
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/build.sh" || exit 2
exec "$here/harness/target/release/hmc" replay "$@"
