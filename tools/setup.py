#!/usr/bin/env python3
"""Checks that the tools the checks need are there.  Everything is built by the checks themselves."""
import shutil, sys
missing = [t for t in ('gcc', 'g++', 'clang', 'clang++') if shutil.which(t) is None]
print('missing tools:', missing or 'none')
sys.exit(1 if missing else 0)
