#!/usr/bin/env python3
"""nothing has to be installed: checks build what they need; verify that the tools are there"""
import shutil, subprocess, sys
for t in ("g++", "clang++", "clang", "ld"):
    if not shutil.which(t):
        sys.exit("missing tool " + t)
print("ok")
