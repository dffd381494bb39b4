#!/bin/bash
# run.sh <PROPERTY> <quick|thorough> : runs one check in the repository's Python environment.
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-quick}"
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 ATEN_CPU_CAPABILITY=avx2
export HF_HUB_OFFLINE=1 MPLBACKEND=Agg
SCRATCH=$(mktemp -d /tmp/symx_XXXXXX)
trap 'rm -rf "$SCRATCH"' EXIT
export SYMX_SCRATCH="$SCRATCH" KEOPS_CACHE_FOLDER="$SCRATCH/keops" TORCHINDUCTOR_CACHE_DIR="$SCRATCH/inductor" MPLCONFIGDIR="$SCRATCH/mpl" TMPDIR="$SCRATCH"
f=$(ls checks/"$1"_*.py 2>/dev/null | head -1)
[ -n "$f" ] || { echo "no check for $1"; exit 2; }
shift 2
/opt/venv/bin/python "$f" "$@"
exit $?
