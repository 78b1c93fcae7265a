#!/bin/bash
# check.sh <ID> [--thorough] [--replay FILE] [--part NAME]
exec python3 "$(dirname "$(readlink -f "$0")")/tools/check.py" "$@"
