#!/bin/bash
# Build the harness and the generated crates once; the checks rebuild them when /repo changes.
cd "$(dirname "$0")" || exit 1
python3 -c '
import sys
sys.path.insert(0, ".")
from vlib import core
for b in ["codec", "idl", "rpcgen"]:
    print(core.build(b))
' || exit 1
for p in C12 C13 C18 C19 C20 C21 C22 C23 C25 C26; do python3 check.py $p || true; done
exit 0
