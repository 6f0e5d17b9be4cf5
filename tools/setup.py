#!/usr/bin/env python3
"""Warms the Go build cache for the translator and the searches; the checks build them again themselves."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
t = tempfile.mkdtemp(prefix="verif-setup-")
try:
    for d in ("go2verus", "search"):
        shutil.copytree(f"{V}/{d}", f"{t}/{d}")
    subprocess.run(["go", "build", "-o", f"{t}/g", "."], cwd=f"{t}/go2verus", env=env, check=True)
    subprocess.run(["go", "build", "./..."], cwd=f"{t}/search", env=env, check=True)
    subprocess.run(["verus", "--version"], check=True)
finally:
    shutil.rmtree(t, ignore_errors=True)
