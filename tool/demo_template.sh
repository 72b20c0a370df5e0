#!/bin/bash
# builds a small program against the objects in /repo and runs it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
I=""; for s in utilities structure gkmod io error interface test; do I="$I -Isources/$s"; done
g++ -std=c++14 -w -DNDEBUG $I -Isources -c "$here/demo.cpp" -o "$d/demo.o" || exit 3
ar rcs "$d/lib.a" $(ls sources/utilities/*.o sources/structure/*.o sources/gkmod/*.o sources/error/*.o sources/io/*.o sources/interface/*.o sources/test/*.o | grep -v '/main.o') || exit 3
g++ "$d/demo.o" "$d/lib.a" -lreadline -o "$d/demo" 2>"$d/err" || { head -20 "$d/err"; exit 3; }
timeout 120 "$d/demo"
