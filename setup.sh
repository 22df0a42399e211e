#!/bin/bash
# builds the analyser from the committed sources
set -e
cd "$(dirname "$0")"
mkdir -p build out evidence
python3 -c "
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, 'lib')
import dump
dump.build_tool()
"
