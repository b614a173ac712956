#!/bin/bash
# check.sh ID [quick|thorough]   decide one property for /repo's working tree
# check.sh -replay FILE          run a recorded violation again
V=$(cd "$(dirname "$0")" && pwd)
SEED=${VERIF_SEED:-1}
TIER=${2:-${VERIF_TIER:-quick}}
B=$(mktemp -d /tmp/agenor-sim.XXXXXX) || exit 3
trap 'rm -rf "$B"' EXIT
KNOWN=$V/known-findings.jsonl
build() {
  if ! bash "$V/build.sh" "$@"; then
    echo "the simulator could not be built from /repo" >&2
    exit 3
  fi
}
if [ "$1" = "-replay" ]; then
  if grep -q '^ "race": true' "$2"; then
    build "$B" race
  else
    build "$B"
  fi
  "$B/sim" -replay "$2" -known "$KNOWN"
  exit $?
fi
RACE=()
case $1 in
C19) build "$B" race ;;
C21)
  build "$B"
  build "$B/race" race
  RACE=(-racebin "$B/race/sim")
  ;;
*) build "$B" ;;
esac
INFO=$(tail -1 "$B/instr.log" | grep '^{' || echo '{}')
"$B/sim" -prop "$1" -tier "$TIER" -seed "$SEED" -root "$V" -known "$KNOWN" -build "$INFO" "${RACE[@]}"
exit $?
