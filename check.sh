#!/bin/bash
# check.sh <property> <quick|thorough>: decides one property on /repo's current working tree
cd "$(dirname "$0")" || exit 2
if [ ! -x bin/gvc ] || [ -n "$(find gvc -name '*.go' -newer bin/gvc -print -quit)" ]; then
  bash build.sh || exit 2
fi
exec bin/gvc -repo "${VERIF_REPO:-/repo}" -verif "$PWD" -contracts "$PWD/contracts" -prop "$1" -tier "${2:-quick}"
