#!/bin/bash
# Builds everything the checks run, so that each check only rebuilds what changed. No check depends on this having run.
cd "$(dirname "$0")" || exit 1
exec python3 check.py prebuild
