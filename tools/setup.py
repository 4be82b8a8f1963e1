#!/usr/bin/env python3
"""setup_cmd: checks that the tools the framework needs are there. Checks build what they need."""
import shutil
import subprocess
import sys
for t in ("/usr/bin/clang++-20", "python3"):
    if not shutil.which(t):
        print("missing", t)
        sys.exit(1)
subprocess.run(["/usr/bin/clang++-20", "--version"], check=True)
