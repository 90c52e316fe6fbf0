#!/bin/bash
# Replays every defect found on the pinned tree against the library built from REPO (default /repo).
# Prints "ok" where the behaviour is right and "FAILS" where the defect shows.
repo=${REPO:-/repo}
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/a0find.XXXXXX)
trap 'rm -rf "$d"' EXIT
# The yyjson submodule is empty: declarations, and definitions that abort, stand in for it.
objs="$d/yyjson.o"
cat > "$d/yyjson.c" <<'END'
#include <stdlib.h>
#define STUB(f) void f(void) { abort(); }
STUB(yyjson_read_max_memory_usage) STUB(yyjson_alc_pool_init) STUB(yyjson_read_opts) STUB(yyjson_mut_doc_new)
STUB(yyjson_mut_doc_free) STUB(yyjson_merge_patch) STUB(yyjson_mut_write_opts)
END
gcc -c "$d/yyjson.c" -o "$d/yyjson.o"
for f in "$repo"/src/*.c; do
  o=$d/$(basename "$f" .c).o
  gcc -O1 -g -DNDEBUG -D_GNU_SOURCE -std=c11 -I"$repo/include" -I"$here/../stubs" -c "$f" -o "$o" & objs="$objs $o"
done
# C++ demonstrations need the C++ interface as well.
case "${1:-x.cpp}" in *.cpp)
  for f in "$repo"/src/*.cpp; do
    o=$d/$(basename "$f" .cpp)_cpp.o
    g++ -O1 -g -DNDEBUG -D_GNU_SOURCE -DA0_EXT_NLOHMANN -std=c++11 -w -I"$repo/include" -c "$f" -o "$o" & objs="$objs $o"
  done;;
esac
wait
ar rcs "$d/liba0.a" $objs
mkdir -p "$d/root"
for c in ${1:-"$here"/*.c "$here"/*.cpp}; do
  n=$(basename "${c%.*}")
  cc="gcc -std=c11"; case $c in *.cpp) cc="g++ -std=c++11";; esac
  $cc -O1 -g -D_GNU_SOURCE -w -I"$repo/include" -I"$repo/src" "$c" -o "$d/$n" "$d/liba0.a" -lpthread $(sed -n "1s,^// link: ,,p" "$c") || { echo "$n: does not build"; continue; }
  (cd "$d" && A0_ROOT=$d/root timeout 20 "./$n" > "$d/out" 2>&1); rc=$?
  printf '%-28s %-6s %s\n' "$n" "$([ $rc = 0 ] && echo ok || echo "FAILS($rc)")" "$(tr '\n' ' ' < "$d/out")"
done
