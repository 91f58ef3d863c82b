#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property on /repo's working tree
# check.sh --replay FILE               replay one case
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
R=${PSLP_REPO:-/repo}
MODE=release
if [ "$1" = "--replay" ]; then
    F=$(realpath "$2")
    P=$(sed -n 's/^# property=\([A-Z0-9]*\).*/\1/p' "$F" | head -1)
else
    P=$1
    TIER=${2:-${VERIF_TIER:-quick}}
fi
case $P in
    P14|P16) MODE=asan ;;
    P23) MODE=tsan ;;
    P27) MODE=debug ;;
esac
B=$V/build/$P.$$
mkdir -p "$B" "$V/evidence" "$V/replays" || exit 2
trap 'rm -rf "$B"' EXIT
bash "$V/build.sh" "$R" "$MODE" "$B" >"$B/build.log" 2>&1 || { echo "build of $R failed:"; tail -20 "$B/build.log"; exit 2; }
export TMPDIR=$B
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0
export UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1:exitcode=99
export TSAN_OPTIONS=halt_on_error=1:exitcode=99:report_thread_leaks=0
if [ "$1" = "--replay" ]; then
    "$B/run" --replay "$F"
else
    "$B/run" --prop "$P" --tier "$TIER" --seed "${VERIF_SEED:-1}" --evidence "$V/evidence/$P.json" --replays "$V/replays" ${EXTRA:-}
fi
