#!/bin/bash
# Builds the fact extractor and compiles the dependencies of /repo's crate once.
set -e
cd "$(dirname "$0")"
python3 analysis/extract.py
