#!/bin/bash
# ./run.sh check C11 | ./run.sh replay FILE
cd "$(dirname "$0")" || exit 2
py=/opt/venv/bin/python
[ -x "$py" ] || py=$(command -v python3.12 || command -v python3)
export PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1
exec "$py" -B -m dst.main "$@"
