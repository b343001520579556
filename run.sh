#!/bin/sh
# run.sh ID [TIER]: runs the check of one property.
exec python3 "$(dirname "$0")/tools/check.py" "$1" ${2:+--tier "$2"}
