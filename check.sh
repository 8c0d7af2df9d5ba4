#!/bin/bash
# check.sh PROPERTY quick|thorough
cd "$(dirname "$0")"
if [ ! -x bin/gosym ]; then bash setup.sh >&2 || exit 3; fi
export VERIF_DIR="$PWD"
exec ./bin/gosym -prop "$1" -tier "$2"
