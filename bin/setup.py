#!/usr/bin/env python3
"""setup_cmd: nothing outlives this command in the copies the checks run in, so it only shows that the harness builds."""
import os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix="xh-setup-")
try:
    e = dict(os.environ, RUSTFLAGS="--cfg xtra_verif")
    rc = subprocess.call(["cargo", "+nightly", "build", "--offline", "--target-dir", d, "--manifest-path", os.path.join(HERE, "harness/Cargo.toml")], env=e)
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(rc)
