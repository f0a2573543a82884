#!/bin/bash
# Everything is interpreted and rebuilt by each check from /repo; only verify
# that the interpreter and the modules the checks need are there.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p evidence
exec /opt/venv/bin/python - <<'PY'
import Crypto.Cipher.AES, cffi, sys
assert sys.version_info >= (3, 11)
print("ready")
PY
