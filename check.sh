#!/bin/bash
# check.sh ID [quick|thorough]: builds the checker if needed and decides one property on /repo's current tree.
cd "$(dirname "$0")"
[ -x bin/gosym ] && [ -z "$(find gosym -name '*.go' -newer bin/gosym -print -quit)" ] || bash build.sh || exit 2
exec bin/gosym check -id "$1" -tier "${2:-${VERIF_TIER:-quick}}"
