#!/usr/bin/env python3
# Nothing to install: every check compiles its drivers from /repo's current headers. Verify the tools are usable.
import os, subprocess, sys
R = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
os.makedirs(os.path.join(R, "build"), exist_ok=True); os.makedirs(os.path.join(R, "evidence"), exist_ok=True)
ok = subprocess.run(["java", "-version"], capture_output=True).returncode == 0
ok = ok and subprocess.run(["/usr/bin/clang++", "--version"], capture_output=True).returncode == 0
sys.exit(0 if ok else 2)
