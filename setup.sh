#!/bin/bash
# Nothing is compiled ahead of time: the checks interpret /repo's working tree.  This verifies the toolchain and the specification.
set -e
cd "$(dirname "$0")"
for f in /usr/share/java/jython.jar /opt/veriftools/tla/tla2tools.jar /opt/veriftools/tla/CommunityModules-deps.jar; do test -e $f; done
for m in spec/*.tla; do
  out=$(cd spec && timeout 120 java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")" 2>&1) || { echo "$out" | tail -20; exit 1; }
done
echo setup ok
