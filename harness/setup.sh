#!/bin/bash
# nothing is compiled: check that the tools are there
set -e
cd "$(dirname "$0")/.."
java -version 2>&1 | head -1
/opt/venv/bin/python -c "import numpy, torch, scipy; print(numpy.__version__, torch.__version__)"
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence
