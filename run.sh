#!/bin/bash
# run.sh C01 [quick|thorough]: runs one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
id="$1"; [ -n "$2" ] && export VERIF_TIER="$2"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 CUDA_VISIBLE_DEVICES=
export HOME="${HOME:-/root}"
unset PYTHONPATH JAX_ENABLE_X64 JAX_DISABLE_JIT
export XLA_FLAGS="--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true"
exec /opt/venv/bin/python "checks/$(echo "$id" | tr 'A-Z' 'a-z').py"
