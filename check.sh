#!/bin/sh
# usage: check.sh <property id>
exec python3 "$(dirname "$0")/lib/main.py" "$1"
