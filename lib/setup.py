#!/usr/bin/env python3
"""Nothing is prebuilt: every check builds from /repo's sources on every run.  This only checks that the tools are there."""
import shutil, sys
missing = [t for t in ('cbmc', 'goto-cc', 'goto-instrument', 'gcc', 'clang', 'z3', 'cvc5', 'pkg-config') if not shutil.which(t)]
print('missing: ' + ', '.join(missing) if missing else 'all tools present')
sys.exit(1 if missing else 0)
