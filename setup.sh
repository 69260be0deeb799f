#!/bin/bash
# Nothing is installed: every check compiles its drivers from /repo's working tree. This verifies the toolchain is present.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
g++-10 --version >/dev/null; java -version 2>/dev/null; test -f /opt/veriftools/tla/tla2tools.jar; test -f /opt/veriftools/tla/CommunityModules-deps.jar
python3 -c 'import registry'
echo setup ok
