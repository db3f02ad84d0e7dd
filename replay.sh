#!/bin/bash
# replay.sh <property> <seed> <case>: runs one case of the bounded cross-check
# against /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
tmp="$(mktemp -d /tmp/vreplay-XXXXXX)" || exit 2
trap 'rm -rf -- "$tmp"' EXIT
repo="${REPO:-/repo}"
{
  printf '{"Replace":{'
  sep=
  for f in "$here"/harness/*.go; do printf '%s"%s/verifharness/%s":"%s"' "$sep" "$repo" "$(basename "$f")" "$f"; sep=,; done
  printf '}}'
} > "$tmp/overlay.json"
(cd "$repo" && go build -overlay "$tmp/overlay.json" -o "$tmp/h" ./verifharness) || exit 2
"$tmp/h" -prop "$1" -seed "$2" -case "$3"
