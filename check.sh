#!/bin/bash
# check.sh <property id> : decide one property on /repo's current source.  Exit 0 / exit 1 + VIOLATION line.
V=$(cd "$(dirname "$(realpath "$0")")" && pwd)
cd "$V" || exit 2
d=$(bash "$V/facts.sh") || exit 2
exec python3 "$V/analysis/main.py" "$1" "$d"
