#!/bin/bash
# Builds the verifier (govc) from its committed sources, offline.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
mkdir -p bin evidence replays
exec flock bin/.lock sh -c 'cd govc && go build -o ../bin/govc .'
