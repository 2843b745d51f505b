#!/bin/bash
# seed.sh <id>: checks one planted bug: applies, builds, passes the stable
# tests, demo passes before and fails after. Uses scratch copies under /tmp.
id=$1; S=/verif/seeded/$id
W=$(mktemp -d /tmp/seedwork.XXXXXX) || exit 3
trap 'rm -rf -- "$W"' EXIT
. /opt/vp/env.sh
cp -a /repo "$W/repo"
cp -r "$S" "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
cd "$W/repo" || exit 3
bash "$W/demo/demo.sh" > "$W/a.log" 2>&1; a=$?
git apply "$S/patch.diff" || { echo "$id: does not apply"; exit 1; }
go build ./... > "$W/b.log" 2>&1 && GOOS=wasip1 GOARCH=wasm go build -o /dev/null ./cmd/fastly-monitor >> "$W/b.log" 2>&1 || { echo "$id: build fails"; head -5 "$W/b.log"; exit 1; }
go test ./internal/... > "$W/t.log" 2>&1 || { echo "$id: tests fail"; grep -m3 FAIL "$W/t.log"; exit 1; }
bash "$W/demo/demo.sh" > "$W/c.log" 2>&1; c=$?
[ $a = 0 ] || { echo "$id: demo fails on the unchanged tree"; tail -15 "$W/a.log"; exit 1; }
[ $c != 0 ] || { echo "$id: demo passes with the change"; exit 1; }
echo "$id: good (demo: $(grep -m1 -E 'zz_|panic|DATA RACE|FAIL' "$W/c.log" | cut -c1-120))"
shift
[ $# -gt 0 ] || exit 0
ITKO_REPO="$W/repo" /verif/bin/itkov -repo "$W/repo" -dir "$W" "$@" 2>&1 | grep -E "VIOLATION|held|^\[" | cut -c1-200 | head -12
