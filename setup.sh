#!/bin/bash
# Warms the Go build cache, so that checks start quickly; not required.
cd "$(dirname "$0")" || exit 1
exec ./check.sh build
