#!/bin/bash
# build the MIR driver and warm the dependency build
set -e
cd "$(dirname "$0")"
mkdir -p .build
bash dump.sh "$PWD/.build/setup.json"
rm -f "$PWD/.build/setup.json"
