#!/bin/bash
# check.sh <property id>
cd "$(dirname "$0")"
exec python3 analysis/check.py "$1"
