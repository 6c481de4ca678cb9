#!/bin/bash
# check.sh ID TIER: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
./build.sh || { echo "cannot build the checker" >&2; exit 2; }
exec ./bin/gosym check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${VERIF_REPO:-/repo}" -verif "$PWD"
