#!/bin/bash
# Warms the build cache; every check rebuilds from /repo's working tree anyway.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec python3 lib/warm.py
