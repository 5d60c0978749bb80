#!/bin/bash
# nothing to build: specifications are interpreted by TLC, the code under test is Python.  Parses the specifications.
cd "$(dirname "$0")/../spec" || exit 1
cp=$(python3 -c 'import sys; sys.path.insert(0, "../lib"); sys.dont_write_bytecode = True; import harness; print(harness.TLA_CP)')
for f in *.tla; do
  java -cp "$cp" tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
