#!/bin/bash
# Nothing to compile: checks that the interpreter, the library of /repo and the harness import.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
mkdir -p evidence replays
/opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '/repo'); sys.path.insert(0, '.')
import quantificationlib, quantificationlib.multiclass.df, mc.core, mc.refs, mc.domains, mc.stubs
print('setup ok')"
