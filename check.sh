#!/bin/bash
# check.sh <property>: analyse /repo's current source for one property.
cd "$(dirname "$0")" || exit 3
if [ ! -x bin/xv ] || [ -n "$(find analyzer -name '*.go' -newer bin/xv -print -quit)" ]; then
  ./setup.sh >&2 || exit 3
fi
exec bin/xv -repo "${VERIF_REPO:-/repo}" -property "$1" -evidence evidence -known known_findings.txt
