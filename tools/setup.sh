#!/bin/sh
# nothing to build: the framework is Python plus system tools; fail early if one is missing
for t in clang++ g++ kissat python3-vt c++filt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
cd "$(dirname "$0")/../engine" && python3-vt -m compileall -q . && mkdir -p ../evidence && echo ready
