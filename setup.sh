#!/bin/bash
# Installs hypothesis from the offline wheelhouse next to the checks (idempotent).
set -e
cd "$(dirname "$0")"
PY=/opt/venv/bin/python
if ! PYTHONPATH=.pydeps "$PY" -c 'import hypothesis' 2>/dev/null; then
  "$PY" -m pip install -q --no-index --find-links /opt/veriftools/wheels --target .pydeps.tmp.$$ hypothesis
  if [ -d .pydeps ]; then rm -rf "$PWD/.pydeps"; fi
  mv ".pydeps.tmp.$$" .pydeps
fi
PYTHONPATH=.pydeps "$PY" -c 'import hypothesis, emc2; print("hypothesis", hypothesis.__version__)'
