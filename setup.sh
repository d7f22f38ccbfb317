#!/bin/bash
# Nothing to build: the specifications are interpreted by TLC and the harness imports ocgis from /repo/src.
# Confirm that the tools are there and that every specification parses.
cd "$(dirname "$0")/spec" || exit 1
mkdir -p ../evidence
for f in *.tla; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
. /opt/vp/env.sh
PYTHONPATH=/repo/src python -c "import ocgis" || exit 1
