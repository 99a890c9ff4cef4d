#!/bin/bash
# Run in the repository: exit 0 if the property holds there. Writes only below a directory of its own.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d) || exit 2
trap 'find "$w" -delete' EXIT
export DEMO_WORK=$w
inc="-I$here -I$here/stubs -I$repo/include"
{
  for s in "$repo"/src/*.cpp; do
    grep -qE '^[[:space:]]*int[[:space:]]+main[[:space:]]*\(' "$s" && continue
    echo "g++ -std=c++17 -O1 @FLAGS@ -w $inc -c '$s' -o '$w/$(basename "$s").o'"
  done
  for s in "$repo"/src/*.c; do
    echo "gcc -std=gnu99 -O1 @FLAGS@ -w $inc -c '$s' -o '$w/$(basename "$s").o'"
  done
  echo "g++ -std=c++17 -O1 @FLAGS@ -w $inc -c '$here/demo.cpp' -o '$w/demo.main'"
  for p in @PROGRAMS@; do
    echo "g++ -std=c++17 -O1 @FLAGS@ -w $inc -c '$repo/$p' -o '$w/$p.main'"
  done
} | xargs -P 8 -I{} bash -c '{}' || exit 2
for m in "$w"/*.main; do
  g++ @FLAGS@ -no-pie "$m" "$w"/*.o "$repo/lib/linux/libsdd.a" -lgmp -lpthread -lm -o "${m%.main}.exe" || exit 2
done
cd "$w" && timeout 250 ./demo.exe > demo.out
