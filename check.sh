#!/bin/sh
# check.sh Cxx | build | replay FILE
exec python3 "$(dirname "$0")/tools/check.py" "$@"
