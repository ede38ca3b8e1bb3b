#!/bin/bash
# check.sh <property id> [quick|thorough]
export PYTHONHASHSEED=0
cd "$(dirname "$0")" && exec python3 sa/main.py "$@"
