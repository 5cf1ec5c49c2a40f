#!/bin/bash
# Nothing is installed; checks build what they need from /repo's working tree.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
for t in g++ clang++ valgrind avr-g++ python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
echo ready
