#!/usr/bin/env python3
"""Setup: checks that the compiler the harnesses need is present. Nothing is prebuilt: every check compiles /repo's current tree."""
import os, shutil, subprocess, sys
for c in ("/usr/bin/clang++-18", "/usr/bin/clang++"):
    if os.path.exists(c):
        print(subprocess.run([c, "--version"], stdout=subprocess.PIPE, text=True).stdout.split("\n")[0])
        break
else:
    sys.exit("no clang++ found")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, "build"), exist_ok=True)
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
