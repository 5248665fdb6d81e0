#!/bin/bash
# usage: run.sh CNN [--tier quick|thorough] [--replay FILE] [--sub NAME]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/vf-no-pycache PYTHONHASHSEED=0
export PYTHONPATH="$PWD:/repo" PYTHONWARNINGS=ignore PYTHONIOENCODING=utf-8 LC_ALL=C.UTF-8
exec python3-vt -m vf.run "$@"
