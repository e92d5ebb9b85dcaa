#!/bin/bash
# run.sh PROPERTY [quick|thorough]   decides one property on the working tree of /repo (or $SIM_REPO)
# run.sh replay FILE                 repeats a recorded violation
# run.sh setup                       builds once, to show that everything needed is there
# Exit status 0: held on everything explored; 1: VIOLATION; 2: error of the check.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
WORK=$(mktemp -d "${TMPDIR:-/tmp}/verif-sim.XXXXXX") || exit 2
trap 'rm -rf "$WORK"' EXIT
trap 'exit 2' INT TERM
build() {
  if ! bash "$VERIF/sim/build.sh" "$WORK/b" "$1" >"$WORK/build.log" 2>&1; then
    echo "run.sh: the simulator cannot be built from the working tree:" >&2
    tail -40 "$WORK/build.log" >&2
    exit 2
  fi
}
case "$1" in
setup)
  build; build race
  python3 -m json.tool MANIFEST.json >/dev/null || exit 2
  exit 0 ;;
replay)
  FILE=$(realpath "$2") || exit 2
  prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$FILE") || exit 2
  mode=; [ "$prop" = C18 ] && mode=race
  build $mode
  export GORACE="halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path=$WORK/race suppress_equal_stacks=0 suppress_equal_addresses=0"
  "$WORK/b/simcheck" -replay "$FILE" -verif "$VERIF"
  exit $? ;;
C[0-9][0-9])
  tier=${2:-${VERIF_TIER:-quick}}
  mode=; [ "$1" = C18 ] && mode=race
  build $mode
  "$WORK/b/simcheck" -prop "$1" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$VERIF" ${SIM_BUDGET:+-budget $SIM_BUDGET}
  rc=$?
  [ $rc = 0 ] || [ $rc = 1 ] || rc=2
  exit $rc ;;
*)
  echo "usage: run.sh PROPERTY [quick|thorough] | replay FILE | setup" >&2
  exit 2 ;;
esac
