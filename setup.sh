#!/bin/sh
# Nothing to build ahead of time: every check builds what it needs from /repo in its own scratch directory.
# Here we only make sure that the tools are there and that the specification parses.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
for f in spec/*.tla; do
	java -DTLA-Library="$PWD/spec" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >/dev/null || { echo "does not parse: $f"; exit 1; }
done
echo ok
