#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/opt/veriftools/bin:$PATH
if [ ! -x bin/gocv ] || [ -n "$(find gocv -newer bin/gocv -name '*.go' -print -quit)" ]; then
  bash build.sh >&2 || { echo "cannot build the verifier" >&2; exit 2; }
fi
exec bin/gocv check -repo /repo -verif "$PWD" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
