#!/bin/bash
# builds the IR dumper used by all checks
cd "$(dirname "$0")/.." || exit 1
exec python3 -c "import sys; sys.path.insert(0, 'engine'); sys.dont_write_bytecode = True; import ir; print(ir.tool())"
