#!/usr/bin/env python3
"""Nothing to prepare: the checks build everything from /repo. Only tests the tools."""
import subprocess, sys, os
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build"), exist_ok=True)
for c in (["cbmc", "--version"], ["goto-cc", "--version"], ["clang", "--version"], ["gcc", "--version"]):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
