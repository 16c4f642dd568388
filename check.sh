#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]     exit 0: held, 1: VIOLATION, 2: the check itself failed
cd "$(dirname "$0")" || exit 2
exec python3 harness/check.py "$@"
