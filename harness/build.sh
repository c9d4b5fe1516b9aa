#!/bin/bash
# builds the library from the sources under $TSYM_REPO (default /repo) and one harness: build.sh OUTDIR harness-source...
set -e
REPO=${TSYM_REPO:-/repo}
OUT=$1; shift
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
{
echo "CXXFLAGS=-std=c++17 -O1 -D_GLIBCXX_ASSERTIONS -I$REPO/include/tsym -I$REPO/include -I$REPO/src"
objs=""
for f in "$REPO"/src/*.cpp; do o="$OUT/$(basename "$f" .cpp).o"; objs="$objs $o"; done
echo "all: $(for h in "$@"; do echo -n " $OUT/h_$(basename "$h" .cpp)"; done)"
for f in "$REPO"/src/*.cpp; do o="$OUT/$(basename "$f" .cpp).o"; printf '%s: %s\n\tg++ $(CXXFLAGS) -MMD -c $< -o $@\n-include %s\n' "$o" "$f" "${o%.o}.d"; done
printf '%s: %s\n\tg++ $(CXXFLAGS) -MMD -c $< -o $@\n' "$OUT/hm.o" "$HERE/main.cpp"
for h in "$@"; do b=$(basename "$h" .cpp)
printf '%s: %s %s\n\tg++ $(CXXFLAGS) -MMD -c $< -o $@\n' "$OUT/hx_$b.o" "$HERE/$b.cpp" "$HERE/core.h"
printf '%s: %s %s %s\n\tg++ -o $@ $^\n' "$OUT/h_$b" "$OUT/hx_$b.o" "$OUT/hm.o" "$objs"
done
} > "$OUT/Makefile.tmp"
cmp -s "$OUT/Makefile.tmp" "$OUT/Makefile" || cp "$OUT/Makefile.tmp" "$OUT/Makefile"
make -s -k -j"$(nproc)" -f "$OUT/Makefile" all
