#!/bin/bash
# builds the MIR dumper and the dump of the current tree, offline
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
python3 - <<'P'
import sys
sys.path.insert(0, '.')
from engine import dump
dump.load()
P
