#!/bin/bash
# Builds the IR exporter once; every check builds it again when it is missing.
cd "$(dirname "$0")" && mkdir -p build evidence && python3 -c "
import sys; sys.path.insert(0, 'analyzer')
import core; print(core.build_irx())"
