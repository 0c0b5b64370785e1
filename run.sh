#!/bin/bash
# run.sh PROPERTY [TIER]
cd "$(dirname "$0")" && exec python3 analyzer/check.py --property "$1" --tier "${2:-${VERIF_TIER:-quick}}"
