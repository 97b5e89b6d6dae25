#!/bin/bash
# Builds the demonstration against the library just built in the current directory and runs it in a scratch folder.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=gnu++17 -w -g -DGS_LIN -D_LINUX -DUNICODE -D_UNICODE -DBUILD_MVR_XCHANGE -DDONT_USE_XERCES_AS_XMLLIB -DIS_UNITTEST \
  -I"$R/src" -I"$R/mdns_cpp/include" -I"$R/mdns_cpp/src" "$D/demo.cpp" "$D/net.cpp" -o "$W/t" \
  -Wl,--wrap=getifaddrs,--wrap=freeifaddrs,--wrap=connect,--wrap=setsockopt "$R/_build/libs/libMvrGdtf.a" "$R/_build/libs/libmdns_cpp.a" -luuid -lpthread || exit 3
[ -n "$KEEP" ] && cp "$W/t" "$KEEP"
cd "$W" && HOME="$W" timeout 200 ./t
