#!/bin/bash
# Nothing is compiled: check that the tools and the specification are usable.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence build
command -v java >/dev/null
test -x /opt/venv/bin/python
for m in spec/*.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -DTLA-Library=spec tla2sany.SANY "$m" > build/sany.log 2>&1 || { cat build/sany.log; exit 1; }
done
echo "setup ok"
