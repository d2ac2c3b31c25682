#!/bin/bash
# The framework is interpreted; check that the interpreter and the repository import.
cd "$(dirname "$0")" || exit 1
chmod +x check
exec env HOME=/root PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= PYTHONPATH=/repo /opt/venv/bin/python -c 'import numpy, torch, sympy, kd; print("ok", kd.__file__)'
