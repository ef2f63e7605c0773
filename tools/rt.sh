#!/bin/bash
# run the repository's own tests against a tree and compare with the baseline: rt.sh [repo]
cd "${1:-/repo}" && /opt/venv/bin/python -m pytest -q -p no:cacheprovider -x --no-header tests 2>&1 | tail -5
