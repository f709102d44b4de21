#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_TIER, VERIF_SEED from the environment)
root=$(cd "$(dirname "$0")" && pwd)
. "$root/env.sh"
bash "$root/setup.sh" || { echo "cannot build the verifier"; exit 2; }
mkdir -p "$root/evidence"
export VERIF_ROOT=$root
exec timeout -k 10 ${VERIF_LIMIT:-880} "$root/bin/govc" check "$1"
