#!/bin/bash
# Builds what does not depend on the tree under test (nothing persists between
# checks, every check builds the harness from /repo itself), and verifies that
# the tools are there and the specifications parse.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence .build
command -v java >/dev/null && command -v cargo >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
cd spec
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >../.build/sany.log 2>&1 || { cat ../.build/sany.log; exit 1; }
done
echo setup ok
