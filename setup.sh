#!/bin/sh
# nothing to build: checks what the checks need
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec python3-vt -c "import z3, sys; print('z3', z3.get_version_string()); sys.exit(0)"
