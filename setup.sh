#!/bin/bash
# Builds everything once; the checks build again what has changed since.
cd "$(dirname "$0")" || exit 1
. ./lib.sh
build_release && build_checked && build_sync
