#!/bin/bash
# Warms the build cache and checks that the harness builds against /repo.
cd "$(dirname "$0")" || exit 2
exec ./check.sh C01 build
