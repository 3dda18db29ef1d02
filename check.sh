#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]      run one property check
# check.sh <PROPERTY> --replay <file>       run one saved case again
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 TZ=UTC
for py in /opt/venv/bin/python "$(command -v python3)"; do
    [ -x "$py" ] && exec "$py" "$here/harness/runner.py" "$@"
done
echo "no python found" >&2
exit 2
