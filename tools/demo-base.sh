#!/bin/bash
# Builds the library's sources in the current directory together with demo.cpp and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
FLAGS="@FLAGS@"
mkdir -p "$t/inc/liblevenshtein/proto" "$t/o" "$t/scratch"
protoc --proto_path="$repo/proto" --cpp_out="$t/inc/liblevenshtein/proto" "$repo/proto/liblevenshtein.proto" || exit 2
{ find "$repo/src" "$repo/third-party" -name '*.cpp'; find "$t/inc" -name '*.cc'; echo "$here/demo.cpp"; } > "$t/files"
export t repo FLAGS
xargs -P 8 -I{} bash -c 'g++ -std=c++20 -w $FLAGS -I"$repo/src" -I"$repo/third-party" -I"$t/inc" -c "$1" -o "$t/o/$(echo "$1" | md5sum | cut -c1-12).o"' _ {} < "$t/files" || exit 2
g++ $FLAGS -o "$t/demo" "$t"/o/*.o -lprotobuf -lpthread || exit 2
cd "$t/scratch"
timeout 100 "$t/demo"
rc=$?
[ $rc = 0 ] && echo "demo: holds" || echo "demo: BROKEN (status $rc)"
exit $rc
