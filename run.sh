#!/bin/bash
# usage: run.sh <property> [--tier quick|thorough] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
exec /opt/venv/bin/python -B "$here/mc/main.py" "$@"
