#!/bin/bash
# run.sh PROP: decide one property against /repo's current tree
cd "$(dirname "$0")" || exit 3
exec python3 lib/check.py "$1"
