#!/bin/bash
# Builds the engines into /verif/build (not committed).
cd "$(dirname "$0")/.." || exit 1
exec python3-vt -c 'import sys; sys.path.insert(0, "lib"); import ilv, symex; symex.ensure_tool(); ilv.ensure_tool()'
