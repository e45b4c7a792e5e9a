#!/bin/sh
# Nothing is compiled: checks that the tools are there and that every
# specification parses.
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
java -version >/dev/null 2>&1
cd spec
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
for f in *.tla; do
  java -Djava.io.tmpdir="$S" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >"$S/log" 2>&1 || { cat "$S/log"; echo "setup: $f does not parse"; exit 1; }
done
echo "setup: specifications parse"
