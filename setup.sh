#!/bin/bash
# builds the IR normaliser used by every check
cd "$(dirname "$0")" && exec python3 -c "import sys; sys.path.insert(0, 'engine'); import core; core.build_zir()"
