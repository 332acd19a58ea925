#!/bin/bash
# usage: check.sh PROPERTY [--thorough] [--replay FILE]
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
cd "$(dirname "$(realpath "$0")")" || exit 2
# -X pycache_prefix: never trust byte code that lies in the tree.
exec /opt/venv/bin/python -B -X pycache_prefix=/tmp/vf-no-pycache -W ignore vf_main.py "$@"
