#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=agg MPLCONFIGDIR=/opt/glompo-env/mpl OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
here=$(cd "$(dirname "$0")" && pwd)
timeout -k 5 200 /opt/venv-pypy/bin/python "$here/demo.py"
