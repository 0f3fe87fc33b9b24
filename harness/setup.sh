#!/bin/bash
# Nothing to install: check that the tools and every specification are usable.
cd "$(dirname "$0")/.." || exit 1
java -version >/dev/null 2>&1 || exit 1
test -x /opt/venv/bin/python || exit 1
for f in spec/*Trace.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" > /tmp/sany.$$ 2>&1) || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
exit 0
