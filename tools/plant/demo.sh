#!/bin/bash
# Run in the root of the repository: exit 0 if the behaviour is right.
HERE="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 1
trap 'rm -rf -- "$T"' EXIT
PYTHONDONTWRITEBYTECODE=1 python3 "$HERE/demo.py" "$T"
