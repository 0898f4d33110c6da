#!/bin/sh
# Nothing has to be built ahead: the checks create what they need. Only
# verify that the tools are there and warm the verilated runtime cache.
set -e
cd "$(dirname "$0")/.."
command -v iverilog >/dev/null; command -v vvp >/dev/null
command -v verilator >/dev/null; command -v g++ >/dev/null
mkdir -p .cache evidence
/opt/venv/bin/python -B -c "
import sys; sys.path.insert(0,'lib')
import vl; print(vl._runtime('.cache'))"
