#!/bin/bash
# run.sh ID [--replay FILE] | --setup
cd "$(dirname "$0")" || exit 2
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1; fi
exec python3 tools/check.py "$@"
