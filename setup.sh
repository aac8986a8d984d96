#!/bin/bash
# Nothing is compiled: the specification is interpreted by TLC, the package is imported from /repo/src.
# Check that the tools are there and that every specification module parses.
set -e
cd "$(dirname "$0")/spec"
JAR=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for m in *.tla; do
  # modules that use Apalache's own library are typed by Apalache instead
  if grep -q "^EXTENDS.*Apalache" "$m"; then
    apalache-mc typecheck --out-dir=/tmp/apa.$$ "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
    rm -rf "/tmp/apa.$$"
    continue
  fi
  java -cp "$JAR" tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
python3 -m py_compile ../check.py && rm -rf ../__pycache__
echo setup ok
