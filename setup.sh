#!/bin/bash
# nothing to build: the verifier and the run-time contracts are Python; only check that the installed tools are there
cd "$(dirname "$0")" || exit 1
/opt/veriftools/pyvenv/bin/python -c "import z3, cvc5" && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import pandas, numpy" && chmod +x check.py && mkdir -p evidence
