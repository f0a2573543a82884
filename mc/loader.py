"""Rebuild and import the library under test from /repo's working tree.

The tree is copied into a scratch directory that is removed afterwards, the
OpenSSL extension is built there when a check asks for it, and the stdlib
modules that make the library nondeterministic can be replaced by shims for
the duration of the import (so `import x` and `from x import *` both see them).
"""
import atexit
import importlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("MC_REPO", "/repo")
scratch = None
_owner = None

def _cleanup():
    if scratch is not None and os.getpid() == _owner:
        shutil.rmtree(scratch, ignore_errors=True)

def prepare(openssl=False):
    """Copy the sources (and build the extension) into a scratch directory."""
    global scratch, _owner
    if scratch is not None:
        return scratch
    _owner = os.getpid()
    scratch = tempfile.mkdtemp(prefix="mc-snmp-")
    atexit.register(_cleanup)
    shutil.copytree(os.path.join(REPO, "snmp"), os.path.join(scratch, "snmp"),
        ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.o", "openssl.c"))
    if openssl:
        build_openssl()
    sys.path.insert(0, scratch)
    # the editable install must not shadow or complete the scratch copy
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != REPO]
    sys.meta_path[:] = [f for f in sys.meta_path
        if "__editable__" not in type(f).__module__ + repr(f)]
    return scratch

def build_openssl():
    code = (
        "import runpy,sys\n"
        "ns = runpy.run_path(sys.argv[1])\n"
        "ns['ffi'].compile(tmpdir=sys.argv[2], verbose=False)\n"
    )
    script = os.path.join(scratch, "snmp", "cffi", "openssl.py")
    subprocess.run([sys.executable, "-c", code, script, scratch],
        check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

PRELOAD = (
    "hashlib hmac socket select threading collections weakref heapq math enum "
    "time random os importlib ipaddress selectors logging contextlib functools "
    "itertools struct queue concurrent.futures typing abc dataclasses "
    "Crypto.Cipher.AES Crypto.Cipher.DES Crypto.Cipher._mode_cfb "
    "Crypto.Cipher._mode_cbc cffi warnings traceback string secrets "
    "bisect copy operator types asyncio signal errno platform re subprocess "
    "tempfile uuid datetime decimal fractions numbers statistics"
).split()

def load(shims=None, modules=("snmp",)):
    """Import the library, with `shims` (name -> module) in place of stdlib."""
    assert scratch is not None
    for name in PRELOAD:
        try:
            importlib.import_module(name)
        except ImportError:
            pass
    for name in [m for m in sys.modules if m == "snmp" or m.startswith("snmp.")]:
        del sys.modules[name]
    saved = {}
    for name, mod in (shims or {}).items():
        saved[name] = sys.modules.get(name)
        sys.modules[name] = mod
    try:
        out = [importlib.import_module(m) for m in modules]
    finally:
        for name, mod in saved.items():
            if mod is None:
                del sys.modules[name]
            else:
                sys.modules[name] = mod
    for mod in out:
        assert mod.__file__.startswith(scratch), mod.__file__
    return out if len(out) > 1 else out[0]

def in_library(tb):
    """Does any frame of this traceback belong to the library?"""
    while tb is not None:
        if scratch and tb.tb_frame.f_code.co_filename.startswith(scratch):
            return True
        tb = tb.tb_next
    return False
