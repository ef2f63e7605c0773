#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$(readlink -f "$0")")" || exit 3
py=/opt/venv/bin/python
$py -c 'import hypothesis' 2>/dev/null || py=python3-vt
unset WHENEVER_NO_BUILD_RUST_EXT
exec env -u PYTHONPATH PYTHONHASHSEED=0 TZ=America/St_Johns PYTHONDONTWRITEBYTECODE=1 \
  PYTHONPYCACHEPREFIX=/nonexistent-pycache "$py" -B -m vf.runner "$@"
