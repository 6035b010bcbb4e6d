#!/bin/bash
# checks that the tools are there; every check builds what it needs itself
cd "$(dirname "$0")" || exit 1
mkdir -p build replay evidence
for t in cargo python3 z3 z3-new cvc5 cargo-kani verus coqc; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
echo ok
