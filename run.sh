#!/bin/bash
# run.sh PROPERTY [quick|thorough]   builds the monitor from /repo's working tree and runs one check.
# Exit 0: held, 1: VIOLATION printed, 2: no answer (build failure, internal error).
cd "$(dirname "$0")" || exit 2
ROOT=$(pwd)
P=$1; TIER=${2:-${VERIF_TIER:-quick}}; SEED=${VERIF_SEED:-1}
. /opt/vp/env.sh
. ./builds.sh
PARTS=($(parts_of "$P"))
export VERIF_THOROUGH_SECS=$(( ${VERIF_THOROUGH_SECS:-780} / ${#PARTS[@]} ))
rc=0; merge=()
for part in "${PARTS[@]}"; do
  build_part "$part" || { echo "build failed"; exit 2; }
  "$BIN" check "$P" --tier "$TIER" --seed "$SEED" --out "$ROOT" "${merge[@]}"
  rc=$?
  [ $rc = 0 ] || break
  merge=(--merge)
done
case $rc in
  0|1|2) exit $rc ;;
  132|133|134|135|136|139)
    # The process died (abort, illegal instruction, stack overflow): library code did that to its host.
    if [ "$P" = C26 ]; then
      mkdir -p replays; echo "status $rc of: vh check $P --tier $TIER --seed $SEED" > replays/C26-died.txt
      echo "VIOLATION property=C26 replay=$ROOT/replays/C26-died.txt"; exit 1
    fi ;;
esac
echo "the check ended with status $rc"; exit 2
