#!/bin/bash
# Nothing to install: checks that the interpreter, Hypothesis and the extensions are there (offline).
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
/opt/venv/bin/python - <<'P'
import hypothesis, numpy, scipy
print('hypothesis', hypothesis.__version__)
P
/opt/venv/bin/python /opt/vp/build_ext.py
