#!/bin/bash
# Compiles the VHDL libraries of VUnit (needed by the en_tb packages and the test benches) once, into /verif/build (git-ignored).
# The checks fall back to compiling it themselves when it is missing.
here="$(cd "$(dirname "$0")" && pwd)"
exec /opt/venv/bin/python -B "$here/lib/vunit_lib.py" "$here/build"
