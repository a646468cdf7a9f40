#!/bin/bash
# Build the fact extractor (if its source changed) and the workspace's facts.
set -e
cd "$(dirname "$0")"
exec python3 analyzer/facts.py "$@"
