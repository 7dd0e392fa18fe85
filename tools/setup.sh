#!/bin/sh
# nothing to build: parse all specifications once, so that a broken one is noticed early
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/evidence"
tmp=$(mktemp -d) || exit 1
rc=0
for f in "$here"/spec/*.tla; do
  (cd "$here/spec" && java -Djava.io.tmpdir="$tmp" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
     tla2sany.SANY -error-codes "$f" >"$tmp/log" 2>&1) || { cat "$tmp/log"; echo "does not parse: $f"; rc=1; }
done
rm -rf "$tmp"
exit $rc
