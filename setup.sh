#!/bin/sh
# Nothing to compile: check that the tools the checks need are present.
cd "$(dirname "$0")" || exit 1
test -f /opt/veriftools/tla/tla2tools.jar && test -x /opt/venv/bin/python && java -version >/dev/null 2>&1 || exit 1
mkdir -p evidence
exit 0
