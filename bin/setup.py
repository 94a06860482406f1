#!/usr/bin/env python3
"""Checks that the tools are there and that the specifications parse; builds the harness once."""
import glob, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ok = True
for f in sorted(glob.glob(os.path.join(ROOT, "spec", "*.tla"))):
    r = subprocess.run(["tla-sany", os.path.basename(f)], cwd=os.path.join(ROOT, "spec"), capture_output=True, text=True)
    if r.returncode != 0:
        ok = False
        print(r.stdout[-2000:])
r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml")],
                   env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(ROOT, "target"), RUSTFLAGS="-Awarnings"))
sys.exit(0 if ok and r.returncode == 0 else 1)
