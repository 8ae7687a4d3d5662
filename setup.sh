#!/bin/sh
# nothing to install: checks build what they need from /repo; verify that the tools are there
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
command -v clang++ >/dev/null; command -v java >/dev/null; test -f /opt/veriftools/tla/tla2tools.jar
python3 -c 'import json; json.load(open("MANIFEST.json"))'
