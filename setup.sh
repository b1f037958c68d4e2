#!/bin/bash
# Verifies that the toolchain the checks use is present; every check builds what it needs itself.
set -e
for t in g++ java javac python3; do command -v $t > /dev/null; done
test -f /opt/veriftools/tla/tla2tools.jar
echo ok
