#!/bin/bash
# Builds what the checks need from the committed files (offline).
cd "$(dirname "$0")" || exit 1
mkdir -p .work .build evidence
java -version >/dev/null 2>&1 || { echo "java missing"; exit 1; }
export PYTHONPATH="/repo:$PWD" PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -W ignore -c "import flamingpy, harness.core"
