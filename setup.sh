#!/bin/bash
# Nothing to build: the engine is pure Python on the installed z3. Check that it is there.
set -e
python3-vt -c "import z3; print('z3', z3.get_version_string())"
/opt/venv/bin/python -c "import fsspec, pairtree; print('fsspec', fsspec.__version__)" 
mkdir -p evidence replays
