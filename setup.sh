#!/bin/bash
# Everything is built by the checks themselves from /repo's working tree; this only checks that the tools are there.
set -e
cd "$(dirname "$0")"
test -f /opt/veriftools/tla/tla2tools.jar
python3 -c 'import yaml, json'
mkdir -p .build evidence
