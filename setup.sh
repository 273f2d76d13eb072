#!/bin/bash
# Confirms, offline, that the tools the checks use are there and that the harness builds.
set -e
cd "$(dirname "$0")"
command -v tlc java go python3 >/dev/null
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
bash tools/build.sh "$d"
python3 tools/mkmanifest.py --check
