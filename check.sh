#!/bin/bash
# usage: check.sh ID [--tier quick|thorough] [--case KEY] : rebuilds the harness against /repo's working tree and runs one check.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./env.sh
./build.sh || { echo "check.sh: harness build failed"; exit 2; }
ID=$1; shift
TIER=${VERIF_TIER:-quick}
mkdir -p evidence replays
rm -f "replays/$ID-"*.txt
"$CARGO_TARGET_DIR/debug/nyxmc" "$ID" --tier "$TIER" --seed "${VERIF_SEED:-1}" "$@"
rc=$?
case $rc in
  0|1) exit $rc ;;
  134|135|136|139)
    # The code under test took the process down (abort, bus error, FPE, segfault) while running a recorded case.
    f="replays/$ID-crash.txt"
    { echo "process died with status $rc while running:"; cat "replays/$ID-current.txt" 2>/dev/null; } > "$f"
    cat "$f"
    echo "VIOLATION property=$ID replay=/verif/$f"
    exit 1 ;;
  *) echo "check.sh: engine error, status $rc"; exit 2 ;;
esac
