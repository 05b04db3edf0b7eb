#!/bin/bash
# nothing to build: TLA+ modules and Jython drivers are run as they are.
# Check that the tools are there and that the specifications parse.
set -e
cd "$(dirname "$0")"
chmod +x harness/jy.sh bin/check.py
java -version 2>/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
test -f /usr/share/java/jython.jar
mkdir -p evidence replay
echo ok
