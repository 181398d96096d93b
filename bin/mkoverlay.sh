#!/bin/bash
# mkoverlay.sh OUT.json: overlay placing the harness of /verif in a virtual package of /repo
V="$(cd "$(dirname "$0")/.." && pwd)"
{
  echo '{"Replace": {'
  first=1
  for f in "$V"/harness/*_test.go; do
    [ $first = 1 ] || echo ','
    first=0
    printf '"/repo/verifharness/%s": "%s"' "$(basename "$f")" "$f"
  done
  echo '}}'
} > "$1"
