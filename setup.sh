#!/bin/bash
# nothing is kept between runs; this only shows that the tools are there
set -e
cd "$(dirname "$0")"
mkdir -p out evidence
java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
clang++ --version | head -1 || g++ --version | head -1
python3 --version
