#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
. ./env.sh
(cd govc && go build -o ../bin/govc .) || exit 2
exec bin/govc -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
