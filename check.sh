#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" && exec python3 tools/check.py "$1" "${2:-${VERIF_TIER:-quick}}"
