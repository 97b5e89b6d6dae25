#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   Rebuilds the simulator from /repo's working tree and runs one property's check.
cd "$(dirname "$0")" || exit 2
mkdir -p build evidence replays
exec 9>build/lock; flock 9
if ! { python3 tools/sync.py "${REPO:-/repo}" build/src && make -s -j"$(nproc)" BUILD="$PWD/build" VERIF="$PWD"; } >build/make.log 2>&1; then tail -40 build/make.log; echo "build failed"; exit 2; fi
tools/locales.sh build/locale
flock -u 9; exec 9>&-
[ "$1" = build ] && exit 0
exec ./build/simcheck --property "$1" --tier "${2:-${VERIF_TIER:-quick}}"
