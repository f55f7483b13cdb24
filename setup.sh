#!/bin/sh
# Nothing is built ahead of time: every check builds what it needs from /repo.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replay
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
