#!/bin/bash
# usage: check.sh <property> [--thorough]
cd "$(dirname "$0")"
exec python3 analysis/run.py "$@"
