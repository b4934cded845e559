#!/bin/bash
# Nothing to build: checks that the tools the framework needs are there and the specifications parse.
set -eu
cd "$(dirname "$0")"
java -version 2>&1 | head -1
/opt/venv/bin/python -c 'import numpy, sklearn; print("python ok")'
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
cd spec
for f in *.tla; do
  java -Djava.io.tmpdir="$S" -cp "$(ls /opt/veriftools/tla/*.jar | tr '\n' ':')" tla2sany.SANY "$f" > "$S/out" 2>&1 || { cat "$S/out"; exit 1; }
done
mkdir -p ../evidence
echo "specifications parse"
