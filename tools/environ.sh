PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
: "${PYTHONHASHSEED:=0}"
MPLCONFIGDIR=${TMPDIR:-/tmp}/dst-mpl-$(id -u)
mkdir -p "$MPLCONFIGDIR"
export PYTHONHASHSEED MPLCONFIGDIR
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
