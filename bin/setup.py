#!/usr/bin/env python3
"""Nothing to build ahead: check that the tools are there."""
import os, shutil, sys
missing = [t for t in ('cbmc', 'goto-cc', 'goto-instrument', 'gcc', 'bison') if not shutil.which(t)]
for d in ('evidence', 'out'):
    os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), d), exist_ok=True)
if missing:
    print('missing:', missing); sys.exit(1)
print('tools present')
