#!/bin/bash
# builds the extractor
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
if [ ! -x build/lcvx ] || [ extract/lcvx.cc -nt build/lcvx ]; then bash extract/build.sh build/lcvx.tmp && mv build/lcvx.tmp build/lcvx; fi
