#!/bin/bash
# Runs the demonstration beside this file against the tree in the current
# directory: exit 0 when the property holds there.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
tree="$(pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$tree" || exit 2
tmp="$(mktemp -d)"
trap 'rm -r "$tmp"' EXIT
printf '{"Replace":{' > "$tmp/overlay.json"
sep=""
for f in "$here"/*_test.go; do
  printf '%s"%s/seeddemo/%s":"%s"' "$sep" "$tree" "$(basename "$f")" "$f" >> "$tmp/overlay.json"
  sep=","
done
printf '}}' >> "$tmp/overlay.json"
go test -c -o "$tmp/demo" -overlay "$tmp/overlay.json" -vet=off ./seeddemo || exit 2
cd "$tmp" && GODEBUG=asynctimerchan=0 ./demo -test.timeout=200s
