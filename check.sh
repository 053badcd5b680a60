#!/bin/bash
# bash check.sh ID [--tier quick|thorough] [--seed N] [--only SUB,...] [--replay FILE] [--all]
# Runs one property's generated checks against /repo's working tree (no build output of its own: the
# package is imported from /repo/src/python).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh
cd "$here" || exit 3
exec "$PY" -m pbt.run "$@"
