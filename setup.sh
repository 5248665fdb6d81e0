#!/bin/bash
# nothing to build: check that the interpreter and the engine load, offline
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:/repo"
mkdir -p evidence replays
exec python3-vt -c 'import hypothesis, six, vf.core, vf.gen, vf.refs.ec; print("ok")'
