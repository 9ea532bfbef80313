#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
cd "$(dirname "$0")" && PYTHONHASHSEED=0 exec python3-vt check.py "$@"
