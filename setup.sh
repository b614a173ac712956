#!/bin/bash
# warms the build cache; every check builds for itself
V=$(cd "$(dirname "$0")" && pwd)
B=$(mktemp -d /tmp/agenor-sim.XXXXXX) || exit 3
trap 'rm -rf "$B"' EXIT
bash "$V/build.sh" "$B"
bash "$V/build.sh" "$B/race" race
