#!/bin/bash
# run with cwd /repo after the build; exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -w -std=gnu++11  -IDotNetLibrary/include -IDotNetLibrary -IPlatformSupport -IDotNetLibrarySupport "$d/demo.cpp" -o "$t/demo" -L_build -lDotNetLibrary -lDotNetLibrarySupport -lPlatformSupport -Wl,-rpath,"$PWD/_build" || exit 99
timeout 60 "$t/demo"
