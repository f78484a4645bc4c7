#!/bin/sh
# Builds the framework from the committed files (offline): the Java class
# that evaluates FixReal.tla's operators.  Checks do it themselves if needed.
set -e
cd "$(dirname "$0")/.."
mkdir -p build/classes
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d build/classes java/*.java
