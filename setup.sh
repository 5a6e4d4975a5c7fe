#!/bin/bash
# Nothing to build ahead: every check works on /repo's current tree.  Only makes sure that the tools are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
/opt/venv/bin/python -c "import numpy, scipy, pandas, tables, h5py, SALib" && command -v gfortran >/dev/null
