#!/usr/bin/env python3
"""Builds the framework once (every check builds again what it needs from /repo's working tree)."""
import os, subprocess, sys
R = os.path.dirname(os.path.abspath(__file__))
env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
for d in ("harness", "tools/vx"):
    t = os.path.basename(d)
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--target-dir", f"{R}/build/{t}"], cwd=f"{R}/{d}", env=env)
    if r.returncode: sys.exit(r.returncode)
