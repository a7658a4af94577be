#!/bin/bash
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd govc && go build -o ../bin/govc . && cd /repo && go build -o /dev/null . && go vet ./internal/tally >/dev/null 2>&1
exit 0
