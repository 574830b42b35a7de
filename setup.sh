#!/bin/bash
# Builds everything once, so that the checks only rebuild what has changed.
cd "$(dirname "$0")" || exit 1
export VERIF_DIR=$PWD
id=all
source ./build.sh || exit 1
echo "built in $T"
