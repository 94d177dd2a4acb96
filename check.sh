#!/bin/bash
# check.sh <property> : decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
exec python3 tools/check.py "$@"
