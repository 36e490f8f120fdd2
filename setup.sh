#!/bin/bash
# Nothing to install: every check compiles the simulator together with /repo's sources.  Here: does it build?
cd "$(dirname "$0")" || exit 1
d=$(mktemp -d) && bash sim/build.sh "$d" all && echo "simulator builds"; rc=$?
rm -rf "$d"; exit $rc
