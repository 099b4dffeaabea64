#!/bin/bash
# Builds the replay harness once and parses the specifications; every check
# rebuilds the harness against /repo's current tree anyway.
set -e
cd "$(dirname "$0")/.."
python3 - <<'P'
import sys
sys.path.insert(0, "tools")
from vf.common import harness
print(harness())
P
cd spec
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
