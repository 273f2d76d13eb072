#!/bin/bash
# Runs beside a checkout of healer (cwd). Exit 0: behaves; 1: broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
cp "$here"/*.go "$w"/ || exit 3
sed 's/^module .*/module demo/' "$repo/go.mod" > "$w/go.mod"
printf '\nrequire github.com/childe/healer v0.0.0\nreplace github.com/childe/healer => %s\n' "$repo" >> "$w/go.mod"
cp "$repo/go.sum" "$w/"
cd "$w" && go build -o demo . || exit 3
timeout 200 ./demo
