#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide a property        check.sh replay FILE   run a recorded violation natively
# check.sh setup                       only build the engine
D=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$D
. /opt/vp/env.sh
export GOMAXPROCS=${GOMAXPROCS:-8}
mkdir -p "$D/.bin"
BIN=$D/.bin/gosym
new=$(find "$D/gosym" -name '*.go' -newer "$BIN" 2>/dev/null | head -1)
if [ ! -x "$BIN" ] || [ -n "$new" ]; then
  (cd "$D/gosym" && go build -o "$BIN.$$" . && mv "$BIN.$$" "$BIN") || { echo "the engine does not build"; exit 3; }
fi
case "$1" in
setup) exit 0 ;;
replay) exec "$BIN" -replay "$2" ;;
*) exec "$BIN" -check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
