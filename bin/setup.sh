#!/bin/bash
# Nothing to build: the specifications run in TLC and the harness in node. Checks that the tools are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence out
java -version >/dev/null 2>&1 && test -f /opt/veriftools/tla/tla2tools.jar && node -e 'require("/repo/node_modules/esbuild")' && echo "setup ok"
