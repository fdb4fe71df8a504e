#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks rely on are present. Checks build what they need themselves."""
import shutil, sys, os
for t in ("g++", "gcc"):
    if not shutil.which(t): sys.exit("missing " + t)
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
for d in ("build", "out", "evidence"): os.makedirs(os.path.join(R, d), exist_ok=True)
print("ok")
