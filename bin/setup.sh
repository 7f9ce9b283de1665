#!/bin/bash
# Nothing is kept from one run to the next: every check builds what it needs from /repo's working tree.
# This only verifies that the toolchain is there and that every specification parses.
cd "$(dirname "$0")/../specs" || exit 1
g++ --version >/dev/null || exit 1
for m in MC*.tla *Trace.tla; do
  [ -e "$m" ] || continue
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >/tmp/sany.$$ 2>&1 ||
    { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo ok
