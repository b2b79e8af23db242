#!/bin/bash
# Nothing to build: the checks are Python and import the code from /repo.
# Fails early if an ingredient is missing.
cd "$(dirname "$0")" || exit 1
scratch="$(mktemp -d /tmp/vf.XXXXXXXX)" || exit 1
trap 'rm -rf -- "$scratch"' EXIT
export PYTHONDONTWRITEBYTECODE=1 AESARA_FLAGS="cxx=,compiledir=$scratch/compiledir,blas__ldflags=-lopenblas"
/opt/venv/bin/python -W ignore -c 'import vf, hypothesis, numpy, scipy, aesara; print("ok", hypothesis.__version__)'
