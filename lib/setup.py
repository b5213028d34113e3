#!/usr/bin/env python3
"""Checks that the tools the checks need are present.  Every check builds what
it needs itself, from /repo's current tree, so there is nothing else to set up."""
import shutil, sys
missing = [t for t in ("gcc", "g++", "make", "ar", "python3", "gdb", "strace") if not shutil.which(t)]
if missing: print("missing tools:", missing); sys.exit(1)
print("setup ok")
