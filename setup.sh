#!/bin/bash
# Builds what the checks need: the TLC overrides of spec/Big.tla.
cd "$(dirname "$0")" && mkdir -p evidence && exec /opt/venv/bin/python -c '
import sys; sys.path.insert(0, "harness"); sys.dont_write_bytecode = True
import tlc; print(tlc.overrides())'
