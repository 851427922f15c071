#!/bin/bash
# run.sh ID [args]: a check with its output cut short (development aid)
cd "$(dirname "$0")"
/opt/venv/bin/python check.py "$@" 2>&1 | cut -c1-${W:-500} | head -${H:-14}
