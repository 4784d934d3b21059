#!/bin/bash
# plantcheck.sh ID...: confirm planted changes under seeded/ in scratch copies
# and run the property's check against each.  Nothing here is read by a check.
. /opt/vp/env.sh
V=/verif
for id in "$@"; do
	d=$V/seeded/$id
	s=/tmp/pl/$id
	mkdir -p /tmp/pl && rm -rf "/tmp/pl/$id" && cp -a /repo "$s" || exit 2
	p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	cd "$s"
	m=/tmp/pl/$id.demo; mkdir -p "$m"; cp "$d"/* "$m"/; rm -f "$m/patch.diff" "$m/meta.json"
	(timeout 300 bash "$m/demo.sh" >/tmp/pl/$id.demo0 2>&1); d0=$?
	git apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
	gofmt -l */*.go internal/*/*.go *.go | grep -v -e strconv/ -e gen.go
	go build ./... || { echo "$id: BUILD FAILS"; continue; }
	go test -vet=off -count=1 ./... 2>&1 | grep -E '^(--- FAIL|FAIL|panic)' >/tmp/pl/$id.tests
	t=ok; grep -q 'panic' /tmp/pl/$id.tests && t=PANIC; [ "$(grep -c -- '--- FAIL' /tmp/pl/$id.tests)" = 1 ] || t="TESTS $(cat /tmp/pl/$id.tests | tr '\n' ' ')"
	(timeout 300 bash "$m/demo.sh" >/tmp/pl/$id.demo1 2>&1); d1=$?
	c=skip
	if [ -z "$NOCHECK" ]; then
		st=$(date +%s)
		VERIF_REPO="$s" VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 "$V/check.sh" "$p" quick >/tmp/pl/$id.check 2>&1; c=$?
		c="$c ($(($(date +%s)-st))s) $(grep -h VIOLATION /tmp/pl/$id.check | head -1)"
	fi
	echo "$id [$p] tests=$t demo clean=$d0 patched=$d1 check=$c"
	cd /tmp && rm -rf "/tmp/pl/$id" "/tmp/pl/$id.demo"
done
