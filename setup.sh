#!/bin/bash
# Builds the analysis driver and analyses /repo once, to see that everything is in place.
cd "$(dirname "$0")" || exit 1
t=$(mktemp -d /tmp/vp-XXXXXX) || exit 1
bash build.sh "$t"
r=$?
rm -rf "$t"
exit $r
