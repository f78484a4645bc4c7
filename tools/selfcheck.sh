#!/bin/sh
# Checks the arithmetic of the specification (spec/FixRealCheck.tla) with TLC.
set -e
cd "$(dirname "$0")/.."
[ -f build/classes/FixReal.class ] || bin/setup.sh
d=$(mktemp -d)
cp spec/FixReal*.tla spec/FixRealCheck.cfg spec/RealFns.tla "$d"
cl=$(pwd)/build/classes
cd "$d"
java -Xss64m -cp "$cl":/opt/veriftools/tla/tla2tools.jar tlc2.TLC -deadlock \
  -noGenerateSpecTE -workers 8 -config FixRealCheck.cfg FixRealCheck.tla > out || { tail -30 out; exit 1; }
grep "No error" out
