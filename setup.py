#!/usr/bin/env python3
"""Builds the harness once, to check that it builds offline and to fill the build cache."""
import os, subprocess, sys

ROOT = os.path.dirname(os.path.abspath(__file__))
env = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
for extra in ([], ["-race"]):
    r = subprocess.run(["go", "build", "-o", os.devnull] + extra + ["./..."], cwd=os.path.join(ROOT, "harness"), env=env)
    if r.returncode:
        sys.exit(r.returncode)
