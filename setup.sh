#!/bin/bash
# Checks that the toolchain is there; the checks build everything else themselves from /repo's current tree.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
java -version 2>/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
(cd driver && go build -o "$d/" ./...)
