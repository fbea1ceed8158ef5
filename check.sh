#!/bin/sh
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
exec /opt/veriftools/pyvenv/bin/python -m pv check "$@"
