#!/bin/bash
# Exit 0: the property holds on this history, otherwise it is broken.
# Builds the sources of /repo with stand-ins for the absent libraries (beside this file) and runs demo.cpp
HERE=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
[ -f "$R/src/serial_client.cpp" ] || R=/repo
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
F="$(cat "$HERE/env/flags" 2>/dev/null) -std=c++20 -w -O0 -pthread -D_GLIBCXX_ASSERTIONS -I$R/src -I$R/thirdparty -I$HERE/env/stub -I$HERE/env/stub/gurux -I$HERE/env"
{
  find "$R/src" -name '*.cpp' ! -name main.cpp ! -name dlms_device.cpp
  ls "$HERE"/env/*.cpp "$HERE"/env/stub/*.cpp "$HERE/demo.cpp"
} | xargs -P 8 -I{} sh -c 'g++ '"$F"' -c "{}" -o "'"$T"'/$(echo "{}" | tr / _).o" || touch "'"$T"'/failed"'
[ -e "$T/failed" ] && { echo "can't compile"; exit 2; }
g++ $(cat "$HERE/env/flags" 2>/dev/null) -pthread "$T"/*.o /usr/lib/x86_64-linux-gnu/libjsoncpp.so.25 -lcurl -lpthread -o "$T/demo" || exit 2
cd "$T" && REPO="$R" timeout 200 ./demo
