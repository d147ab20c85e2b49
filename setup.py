#!/usr/bin/env python3
"""Checks that the tools the checks need are present (they build everything
else themselves, from /repo's working tree, on every run)."""
import shutil
import sys
missing = [t for t in ('gcc', 'g++', 'git', 'python3') if not shutil.which(t)]
if missing:
    sys.exit('missing tools: ' + ', '.join(missing))
print('ok')
