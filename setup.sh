#!/bin/bash
# Offline sanity check of the machinery (there is nothing to build: the library is pure Python and
# is imported from /repo's working tree by every check).
cd "$(dirname "$(readlink -f "$0")")" || exit 3
py=/opt/venv/bin/python
$py -c 'import hypothesis' 2>/dev/null || py=python3-vt
exec env -u PYTHONPATH TZ=UTC PYTHONDONTWRITEBYTECODE=1 "$py" -B tools/selftest.py
