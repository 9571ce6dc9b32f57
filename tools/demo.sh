#!/bin/bash
# Exit 0 when the property holds on the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
lib=
V="-DCRG_BUILD_STATIC -DCRG_VERSION_MAJOR=1 -DCRG_VERSION_MINOR=4 -DCRG_VERSION_BUILD=1"
F="-std=c++17 -g -O0 $V -I$PWD/include -I$PWD/source -Wno-unknown-pragmas"
if [ -z "$lib" ]; then
	find "$PWD/source/RenderGraph" -name '*.cpp' | xargs -P8 -I{} sh -c 'g++ '"$F"' -c {} -o '"$tmp"'/$(echo {} | tr / _).o' || exit 3
	lib=$tmp/libRenderGraph.a
	ar rcs "$lib" "$tmp"/*.o || exit 3
fi
g++ $F -I"$here" "$here/demo.cpp" "$lib" -lpthread -o "$tmp/demo" || exit 3
cd "$tmp" && timeout 120 ./demo
