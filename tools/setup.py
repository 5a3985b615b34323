#!/usr/bin/env python3
"""Check that the tools the checks need are present (nothing to build ahead: every check rebuilds from /repo)."""
import shutil, subprocess, sys
bad = [t for t in ('cbmc', 'goto-cc', 'clang', 'clang++', 'llvm-link', 'opt', 'gcc', 'g++', 'python3-vt') if not shutil.which(t)]
if not bad and subprocess.call(['python3-vt', '-c', 'import z3']):
    bad.append('z3 for python3-vt')
if bad:
    print('missing: ' + ', '.join(bad))
    sys.exit(1)
print('ok')
