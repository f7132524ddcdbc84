#!/bin/sh
# Nothing to compile: check that the toolchain is there and every specification parses.
cd "$(dirname "$0")" || exit 1
tmp=$(mktemp -d) || exit 1
cp spec/*.tla "$tmp"/ && cd "$tmp" || exit 1
rc=0
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > out.txt 2>&1 || { cat out.txt; rc=1; }
done
rm -rf "$tmp"
exit $rc
