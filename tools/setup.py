#!/usr/bin/env python3
# Nothing is prepared ahead of a check (each builds from /repo's working tree); this verifies that the tools are there.
import shutil, sys
missing = [t for t in ('g++', 'clang++', 'nasm', 'objdump', 'objcopy', 'nm', 'valgrind', 'cmake', 'ninja') if not shutil.which(t)]
if missing: print('missing tools:', missing); sys.exit(1)
print('ok')
