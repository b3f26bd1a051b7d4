#!/bin/bash
# Runs demo.py with the Python environment the build installed the bindings into: exit 0 if the property held.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cd "$t" || exit 3
timeout 250 /opt/vp/venv/bin/python "$here/demo.py" > "$t/log" 2>&1
rc=$?
tail -12 "$t/log"
[ $rc = 0 ] && exit 0
exit 1
