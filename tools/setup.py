#!/usr/bin/env python3
"""Checks that the tools the checks need are present (each check builds what it needs by itself)."""
import shutil, sys
missing = [t for t in ('clang++', 'ninja', 'bison', 'flex', 'ar') if not shutil.which(t)]
if missing:
    print('missing: ' + ' '.join(missing))
    sys.exit(1)
