#!/bin/bash
# builds OUT/exec from /repo's working tree: build.sh OUT
set -e
repo=${VERIF_REPO:-/repo}
here=$(cd "$(dirname "$0")" && pwd)
out=$1
mkdir -p "$out/o"
cd "$out"
flags="-std=c++20 -g1 -O0 -w -D_GLIBCXX_ASSERTIONS=1 -include algorithm -I$repo/include"
build() {
  cxx=$1; shift
  rm -f "$out"/o/*.o
  srcs=$(find "$repo/src" -name '*.cpp' | sort)
  i=0; pids=()
  for f in $srcs "$here/exec.cpp"; do
    i=$((i+1))
    $cxx $flags "$@" -c "$f" -o "$out/o/$i.o" 2>>"$out/build.log" & pids+=($!)
  done
  ok=0
  for p in "${pids[@]}"; do wait $p || ok=1; done
  [ $ok = 0 ] && $cxx "$@" "$out"/o/*.o -o "$out/exec" 2>>"$out/build.log"
}
: > "$out/build.log"
build clang++ -fsanitize=address || build g++ -fsanitize=address || { cat "$out/build.log" >&2; exit 1; }
rm -rf "$out/o"
