#!/bin/bash
# Builds the extractor (clang libTooling) and warms the extraction cache.
set -e
cd "$(dirname "$0")"
bash tool/build.sh
python3 -m sa.extract --warm
