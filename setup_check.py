#!/usr/bin/env python3
"""Nothing to build: confirm the compilers the checks use are present."""
import shutil, sys
miss = [t for t in ('clang', 'opt', 'gcc', 'python3') if not shutil.which(t)]
if miss: print('missing', miss); sys.exit(1)
print('ok')
