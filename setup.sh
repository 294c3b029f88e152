#!/bin/bash
# Nothing to install: builds the extensions from /repo and parses every specification once.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python /opt/vp/build_ext.py
for m in spec/*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")" > /tmp/sany.$$ 2>&1) || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo setup done
