#!/usr/bin/env bash
# replay.sh <file>: rebuilds from /repo's working tree and runs a replay file in the build it was found with.
set -u
verif="$(cd "$(dirname "$0")/.." && pwd)"
if grep -q '^engine miri$' "$1"; then
    exec python3 "$verif/bin/miri.py" replay "$1"
fi
bash "$verif/bin/build.sh" || exit 2
build="$(awk '$1=="build"{print $2; exit}' "$1")"
exec "$verif/sim/target/${build:-simdbg}/qcsim" replay "$1"
