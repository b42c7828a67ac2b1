#!/usr/bin/env python3
"""fixed.py PROPERTY TEXT: lists the last commit of /repo as a repaired finding."""
import subprocess, sys
h = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "-1"], capture_output=True, text=True).stdout.strip()
p = "/verif/known-findings.txt"
L = open(p).read().splitlines()
i = next((k for k, l in enumerate(L) if l.startswith("known")), len(L))
L.insert(i, f"fixed: property={sys.argv[1]} {h} {sys.argv[2]}")
open(p, "w").write("\n".join(L) + "\n")
