#!/usr/bin/env python3
"""Nothing to build ahead: every check compiles its harness from /repo's working tree. Verifies the toolchain."""
import subprocess, sys
sys.exit(subprocess.call(["g++", "--version"], stdout=subprocess.DEVNULL))
