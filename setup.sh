#!/bin/bash
# nothing to build: the checks read /repo's current sources on every run
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="/repo:$here" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg \
  /opt/venv/bin/python -c "import symex.patch" || exit 1
echo ok
