#!/bin/bash
# nothing to build: the checks run the Python sources of /repo as they are.  Verify the reference model.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python mc/selftest.py
