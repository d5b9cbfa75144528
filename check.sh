#!/bin/bash
# check.sh <property> [--replay FILE | --seed SEED]
# Runs one property's simulation against the working tree in /repo.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
export PYTHONPATH="$here" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export PYTHONPYCACHEPREFIX="$scratch" SIMTAL_SCRATCH="$scratch"
unset PYTHONSTARTUP PYTHONOPTIMIZE PYTHONWARNINGS
"${SIMTAL_PYTHON:-/opt/venv/bin/python}" -B -P -m simtal "$@"
exit $?
