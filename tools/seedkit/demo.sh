#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
export HOME=$T XDG_CONFIG_HOME=$T/config PYTHONPATH=$H PYTHONDONTWRITEBYTECODE=1
python3 "$H/demo.py"
