#!/bin/bash
# Warms the build cache; every check builds what it needs itself.
. /opt/vp/env.sh
cd "$(dirname "$0")/checker" && go build -o /dev/null . && go vet . >/dev/null 2>&1
exit 0
