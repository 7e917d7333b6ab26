#!/bin/bash
# Compares the symbolic model of numpy, Python and files with the real ones, snippet by snippet.
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d /tmp/selftest.XXXXXX); cd "$d" || exit 1
mkdir -p reliabilityassessment/monte_carlo; touch reliabilityassessment/__init__.py reliabilityassessment/monte_carlo/__init__.py
for g in numpy_calls idioms; do python3 "$here/$g.py" && /opt/venv/bin/python "$here/drv.py" | cut -c1-300; done
python3 "$here/writing.py" && /opt/venv/bin/python "$here/drv_writing.py" | cut -c1-300
rm -rf "$d"
