#!/usr/bin/env python3
"""Nothing has to be prepared: each check builds what it needs from /repo. This only shows that the tools are there."""
import subprocess
for c in (['verus', '--version'], ['cargo', '--version'], ['cargo', 'kani', '--version']):
    print(' '.join(c), subprocess.run(c, capture_output=True, text=True).stdout.split('\n')[0])
