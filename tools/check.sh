#!/bin/bash
# check.sh PROPERTY quick|thorough
cd "$(dirname "$0")/.."
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
if [ ! -x bin/gosym ] || [ -n "$(find engine -newer bin/gosym -name '*.go' -print -quit)" ]; then
  tools/setup.sh || exit 2
fi
exec bin/gosym check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
