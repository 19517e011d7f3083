"""Checks that the tools the verifier needs are present; nothing is built ahead of the checks."""
import shutil
import sys
import z3
for t in ("clang++-18", "cvc5"):
    if not shutil.which(t):
        sys.exit("missing tool " + t)
print("z3", z3.get_version_string())
