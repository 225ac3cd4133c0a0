#!/bin/bash
# Warms the Go build cache for the checks; every check rebuilds what it needs.
cd "$(dirname "$0")/.." || exit 1
exec python3 check.py --build-only
