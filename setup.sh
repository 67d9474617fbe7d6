#!/bin/bash
# Builds the engine and warms the dependency caches of the harness crate.
set -e
cd "$(dirname "$0")"
python3 check.py P02 --tier quick
