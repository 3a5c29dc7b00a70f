#!/bin/bash
# Nothing to compile: parse every specification once so that a broken toolchain shows up here.
set -e
cd "$(dirname "$0")/../specs"
java -version >/dev/null 2>&1
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/vh_sany.$$ 2>&1 || { cat /tmp/vh_sany.$$; rm -f /tmp/vh_sany.$$; exit 1; }
done
rm -f /tmp/vh_sany.$$
echo setup ok
