#!/bin/bash
# Nothing to compile: checks the tools the harness needs are there.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -B -c 'import sys; sys.path.insert(0,"."); import vf, vf.core, fluids; print("ok", fluids.__file__)'
