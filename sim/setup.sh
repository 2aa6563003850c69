#!/bin/bash
# Warms the Go build cache, so that the first check does not pay for it.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
bash "$here/build.sh" "$d"
