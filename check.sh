#!/bin/bash
# check.sh <property> [quick|thorough]; or check.sh replay <file>
. /opt/vp/env.sh 2>/dev/null
here=$(cd "$(dirname "$0")" && pwd)
bin="$here/sim/.bin/simdrv"
cd "$here/sim" || exit 2
mkdir -p "$here/sim/.bin" || exit 2
GOFLAGS=-mod=mod CGO_ENABLED=0 go build -o "$bin.$$" ./cmd/simdrv || exit 2
mv "$bin.$$" "$bin" || exit 2
if [ "$1" = setup ]; then
	exit 0
fi
if [ "$1" = replay ]; then
	exec "$bin" -verif "$here" -replay "$2"
fi
exec "$bin" -verif "$here" -prop "$1" ${2:+-tier "$2"}
