#!/bin/bash
# Nothing to compile: checks that the tools the checks need are there and that
# all specification modules parse.
set -e
cd "$(dirname "$0")/spec"
command -v java >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
for m in *.tla; do
  java -Djava.io.tmpdir="$d" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >"$d/out" 2>&1 || { cat "$d/out"; exit 1; }
  if grep -q "rror" "$d/out"; then cat "$d/out"; exit 1; fi
done
echo "setup ok"
