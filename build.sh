#!/bin/bash
# build.sh REPO release|asan|tsan|debug OUTDIR: PSLP from REPO's working tree plus the engine
set -eu
R=$1 MODE=$2 B=$3
V=$(cd "$(dirname "$0")" && pwd)
case $MODE in
    release) CF="-O2 -g1 -DNDEBUG"; XF="-O2 -g1" ;;
    asan) S="-fsanitize=address,undefined -fno-sanitize=nonnull-attribute -fno-sanitize-recover=all -fno-omit-frame-pointer"
          CF="-O1 -g -DNDEBUG $S"; XF="-O1 -g1 -fsanitize=address" ;;
    debug) CF="-O1 -g1 -DDEBUGGER_ENABLED"; XF="-O2 -g1" ;;
    tsan) CF="-O1 -g -DNDEBUG -fsanitize=thread"; XF="-O1 -g1 -fsanitize=thread" ;;
esac
VER=$(sed -n 's/^set(PSLP_VERSION_\(MAJOR\|MINOR\|PATCH\) *\([0-9]*\)).*/\2/p' "$R/CMakeLists.txt" | paste -sd.)
INC=""
for d in "$R"/include/*/; do INC="$INC -I$d"; done
INC="$INC -I$R/include -I$R/src"
mkdir -p "$B/o"
i=0
pids=()
g++ -std=c++17 $XF -w -I"$R/include/PSLP" -c "$V/harness/main.cpp" -o "$B/main.o" & pids+=($!)
g++ -std=c++17 $XF -w -c "$V/harness/hook.cpp" -o "$B/hook.o" & pids+=($!)
while IFS= read -r f; do
    [ "$MODE" = debug ] || case $f in */Debugger.c) continue ;; esac
    i=$((i + 1))
    gcc -std=gnu99 -w $CF -D_POSIX_C_SOURCE=200809L "-DPSLP_VERSION=\"$VER\"" $INC -c "$f" -o "$B/o/$i.o" & pids+=($!)
done < <(find "$R/src" -name '*.c' | sort)
W=""
if [ "$MODE" = debug ]; then
    # reads internal structures: left out if they are no longer what it knows
    gcc -std=gnu99 -w -O1 -g1 -DDEBUGGER_ENABLED -D_POSIX_C_SOURCE=200809L $INC -c "$V/harness/actcheck.c" -o "$B/o/act.o" && W=,--wrap=run_debugger || rm -f "$B/o/act.o"
fi
for p in "${pids[@]}"; do wait "$p"; done
g++ $XF ${S:-} "$B/main.o" "$B/hook.o" "$B"/o/*.o -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=pthread_create$W -lpthread -lm -o "$B/run"
