#!/bin/bash
# Usage: check.sh PROPERTY [--replay FILE]
# Builds what the check of one property needs from /repo's working tree, and runs it.
#
# Exit status: 0 held, 1 violated (with a VIOLATION line), 2 the check could not be carried out.
id=${1:?usage: check.sh PROPERTY [--replay FILE]}
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
source ./build.sh || exit 2
case $id in
    P01|P02) exec "$H/debug/pkt" "$@" ;;
    P30|P32) exec "$H/debug/be" "$@" ;;
    *) exec "$H/debug/vh" "$@" ;;
esac
