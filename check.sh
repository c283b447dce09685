#!/bin/bash
# check.sh PROPERTY [options]: one check, run against /repo's working tree.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONUTF8=1 PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED=${PYTHONHASHSEED:-0}
unset NXT_FILE_ROOTS NXT_SITE_DIR NXT_VERBOSE NXT_DCC NXT_USER_DIR NXT_BUILTINS
cd / && PYTHONPATH="$HERE" exec /opt/venv/bin/python -m sim.runner "$@"
