#!/bin/bash
# Runs the demonstration beside this script as an in-package test of the
# repository in the current directory, through an overlay.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d /tmp/itkodemo.XXXXXX) || exit 3
trap 'rm -rf -- "$T"' EXIT
PKG=$(cat "$D/pkg")
{
  printf '{"Replace":{'
  sep=
  for f in "$D"/*.go.txt; do
    n=$(basename "$f" .go.txt)
    cp "$f" "$T/$n.go"
    printf '%s"%s/%s/zz_%s_test.go":"%s/%s.go"' "$sep" "$R" "$PKG" "$n" "$T" "$n"
    sep=,
  done
  # stand-ins for parts of libraries that do not run here
  [ -f "$D/overlay.sh" ] && . "$D/overlay.sh"
  printf '}}'
} > "$T/overlay.json"
cd "$R" && TMPDIR="$T" go test -vet=off -count=1 -timeout 240s -overlay "$T/overlay.json" -run '^TestDemo' "./$PKG"
