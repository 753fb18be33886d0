#!/bin/sh
# Sanity of the machinery: the module override compiles, every module parses.
set -e
cd "$(dirname "$0")"
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp spec/*.tla spec/*.java "$T"
cd "$T"
javac -cp "$J" -d "$T" *.java
for m in *.tla; do
  java -Djava.io.tmpdir="$T" -cp "$J:$T" tla2sany.SANY "$m" > out.txt 2>&1 || { echo "$m"; cat out.txt; exit 1; }
done
echo setup ok
