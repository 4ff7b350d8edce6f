#!/usr/bin/env python3
"""Nothing is prepared in advance (every check builds from /repo's tree); looks that
what the checks need is there."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ('g++', 'ar', 'python3'):
    if not shutil.which(t):
        sys.exit('missing: ' + t)
if not os.path.isdir('/repo/code/cpp/src'):
    sys.exit('missing: /repo/code/cpp/src')
for d in ('build', 'evidence', 'replays'):
    os.makedirs(os.path.join(V, d), exist_ok=True)
print('ready')
