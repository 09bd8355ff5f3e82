#!/bin/bash
# Nothing has to be prepared: every check builds what it needs. Report the tools.
set -e
cd "$(dirname "$0")"
java -version 2>&1 | head -1
cmake --version | head -1
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p build evidence
