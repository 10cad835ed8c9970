#!/bin/bash
# builds the framework from the committed files (offline): directories and the compiled Lean lemmas
set -eu
cd "$(dirname "$0")"
mkdir -p evidence replay build
python3 tools/lean.py
echo ok
