#!/bin/bash
# build_bc.sh REPO OUT: compile the library and the entry points to one linked bitcode file.
# The list of sources comes from the project's own build description.
set -e
REPO=$1; OUT=$2; HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
GEN=$OUT/gen
if [ ! -f "$GEN/compile_commands.json" ]; then
  mkdir -p "$GEN"; (cd "$GEN" && cmake -DCMAKE_BUILD_TYPE=Debug -DCMAKE_EXPORT_COMPILE_COMMANDS=ON "$REPO" >cmake.log 2>&1) || { cat "$GEN/cmake.log" >&2; exit 1; }
fi
SRCS=$(python3 - "$GEN/compile_commands.json" "$REPO" <<'PY'
import json, sys, os
r = os.path.realpath(sys.argv[2])
s = set()
for c in json.load(open(sys.argv[1])):
    f = os.path.realpath(c["file"])
    if f.startswith(r + "/lib/") and "/tests/" not in f and f.endswith((".cpp", ".c")):
        s.add(f)
print("\n".join(sorted(s)))
PY
)
FL="-std=gnu++17 -O0 -Xclang -disable-O0-optnone -fno-exceptions -fno-delete-null-pointer-checks -g -DHAVE_CONFIG_H -DMAKE_STREAMS_LIB -fPIC -w -I$REPO/include -I$GEN/include -I$REPO/lib -I$GEN/lib"
rm -f "$OUT"/*.bc "$OUT"/fail "$OUT"/*.err
for f in $SRCS; do
  case "$f" in
  *.c) ( clang ${FL#-std=gnu++17} -emit-llvm -c "$f" -o "$OUT/$(basename "$f").c.bc" 2>"$OUT/$(basename "$f").err" || echo "$f" >>"$OUT/fail" ) & ;;
  *) ( clang++ $FL -emit-llvm -c "$f" -o "$OUT/$(basename "$f" .cpp).o.bc" 2>"$OUT/$(basename "$f").err" || echo "$f" >>"$OUT/fail" ) & ;;
  esac
done
( clang++ $FL -emit-llvm -c "$HERE/harness_tu.cpp" -o "$OUT/harness_tu.o.bc" 2>"$OUT/harness_tu.err" || echo harness >>"$OUT/fail" ) &
wait
if [ -s "$OUT/fail" ]; then cat "$OUT"/*.err >&2; exit 1; fi
llvm-link-18 "$OUT"/*.o.bc -o "$OUT/linked.bc"
opt-18 -passes=sroa "$OUT/linked.bc" -o "$OUT/all.bc"
# the whole library, with the C parts that the units know by contract only
C=$(ls "$OUT"/*.c.bc 2>/dev/null || true)
llvm-link-18 "$OUT/linked.bc" $C -o "$OUT/whole.bc"
opt-18 -passes=sroa "$OUT/whole.bc" -o "$OUT/lib.bc"
