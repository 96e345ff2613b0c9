#!/bin/bash
# Builds the harness against /repo once and checks that the specifications parse.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, "lib")
import core
print(core.build())
print(core.build_seeker())
P
cd spec
for m in ObjModel ObjTrace MtlModel MtlTrace ViewTrace PairTrace CallModel CallTrace; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla > /tmp/sany.$$ 2>&1 \
    || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo setup done
