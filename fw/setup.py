#!/usr/bin/env python3
"""Nothing to build ahead of the checks: each regenerates its encoding from /repo's current tree.
Confirms that the tools they need are there."""
import shutil, subprocess, sys

for t in ("cargo", "cargo-kani", "cbmc", "pkill"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
print(subprocess.run(["cargo", "kani", "--version"], capture_output=True, text=True).stdout.strip())
