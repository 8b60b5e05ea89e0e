#!/usr/bin/env bash
# check.sh <property>: builds the simulator against /repo's working tree and checks one property.
# VERIF_SEED and VERIF_TIER (quick or thorough) choose the seeds and how many of them.
set -u
verif="$(cd "$(dirname "$0")/.." && pwd)"
prop="$1"
seed="${VERIF_SEED:-1}"
tier="${2:-${VERIF_TIER:-quick}}"
if [ "$prop" = C22 ]; then
    # decided by Miri's simulation rather than ours
    case "$tier" in quick) wall="${VERIF_WALL:-150}" ;; *) wall="${VERIF_WALL:-700}" ;; esac
    exec python3 "$verif/bin/miri.py" check "$prop" "$tier" "$seed" "$wall"
fi
bash "$verif/bin/build.sh" || exit 2
case "$tier" in
    quick) runs="${VERIF_RUNS:-$(awk -v p="$prop" '$1==p{print $2}' "$verif/bin/budget.txt")}"; wall="${VERIF_WALL:-90}" ;;
    *) runs="${VERIF_RUNS:-4000000000}"; wall="${VERIF_WALL:-780}" ;;
esac
exec "$verif/sim/target/simrel/qcsim" check "$prop" "$tier" "$seed" \
    "$verif/sim/target/simdbg/qcsim" "$verif/sim/target/simrel/qcsim" "$verif" "$runs" "$wall"
