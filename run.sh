#!/bin/bash
# Runs the check of one property against /repo's current working tree: run.sh <ID> [quick|thorough]
V="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
case "$ID" in
  C01|C02|C03|C04|C05|C06|C07|C14|C35) B=sched ;;
  *) B=seq ;;
esac
"$V/build.sh" $B || { echo "cannot build the checker"; exit 3; }
export VERIF_DIR="$V" VERIF_TIER="$TIER"
cd "$V" || exit 3
"$V/build/target/release/$B" "$ID" "$TIER"
rc=$?
# 134: abort (also: stack overflow), 136: arithmetic, 139: segmentation fault. The code under test ended the whole process.
case $rc in 134|136|139) VERIF_CRASHED=$rc exec "$V/build/target/release/$B" "$ID" "$TIER" ;; esac
exit $rc
