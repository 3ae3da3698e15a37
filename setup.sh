#!/bin/bash
# Nothing is built ahead: every check loads /repo's current source. Only confirms the tools are there.
cd "$(dirname "$0")" && /opt/venv/bin/python -W ignore -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, torch, ode, numpy; print('z3', z3.get_version_string(), 'torch', torch.__version__)"
