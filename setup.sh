#!/bin/bash
# nothing to compile: check that the interpreter and the stand-ins import
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/standins:/repo:$here/harness" \
  /opt/venv/bin/python -c "import ngmix, sxdes, meds, mon, common, metadetect"
