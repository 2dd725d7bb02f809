"""setup: check that the tools the checks need are there (nothing to build: the checks build /repo themselves)"""
import shutil, sys
import z3
from extract import *
for t in ('clang++-18',):
    if not shutil.which(t):
        print('missing', t)
        sys.exit(1)
print('z3', z3.get_version_string())
