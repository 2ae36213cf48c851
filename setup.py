#!/usr/bin/env python3
"""Checks that the tools are there; every check builds for itself."""
import subprocess, sys
sys.exit(subprocess.call("go version && java -version && python3 --version", shell=True))
