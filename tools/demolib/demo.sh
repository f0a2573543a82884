#!/bin/bash
# cwd /repo, after the build
export PYTHONDONTWRITEBYTECODE=1 OPENSSL_CONF="${OPENSSL_CONF:-/opt/vp/openssl-legacy.cnf}"
exec /opt/venv/bin/python "$(dirname "$(readlink -f "$0")")/demo.py"
