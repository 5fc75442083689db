#!/bin/bash
# check.sh <property> [quick|thorough]: builds against /repo and decides one property.
cd "$(dirname "$0")" || exit 3
bash build.sh || { echo "harness build failed"; exit 3; }
exec work/target/debug/vh check "$1" "${2:-${VERIF_TIER:-quick}}"
