export MPLBACKEND=agg MPLCONFIGDIR=/opt/glompo-env/mpl PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 TZ=UTC
