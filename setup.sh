#!/bin/bash
# nothing to build: checks run the interpreter of the repository on /repo's working tree
set -e
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
. dst/env.sh
$PY -W ignore -c 'import numpy, scipy; import dst.core'
mkdir -p evidence replays
echo setup ok
