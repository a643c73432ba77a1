#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# 0: held on everything explored; 1: VIOLATION; anything else: the check could not decide
set -u
cd "$(dirname "$0")" || exit 3
. ./lib.sh
id="${1:?usage: check.sh <property> [quick|thorough]}"
[ -n "${2:-}" ] && export VERIF_TIER="$2"
unhook
export VERIF_SEED="${VERIF_SEED:-1}"
case "$id" in
  XF|C05|C10|C15) build_release & p=$!; build_checked || { wait; echo "INCONCLUSIVE: build failed"; exit 3; }; wait $p || { echo "INCONCLUSIVE: build failed"; exit 3; }; TSV="$T/r/release/tsv" ;;
  C17) build_release && build_c17 || { echo "INCONCLUSIVE: build failed"; exit 3; } ;;
  C22) build_release && build_platforms || { echo "INCONCLUSIVE: build failed"; exit 3; } ;;
  C23) build_release && build_threads || { echo "INCONCLUSIVE: build failed"; exit 3; } ;;
  C24) build_release && build_c24 || { echo "INCONCLUSIVE: build failed"; exit 3; } ;;
  C18|C19|C20|C21) build_sync || { echo "INCONCLUSIVE: build failed"; exit 3; } ;;
  *) build_release || { echo "INCONCLUSIVE: build failed"; exit 3; } ;;
esac
unhook
exec "$TSV" check "$id"
