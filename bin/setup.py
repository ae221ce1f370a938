#!/usr/bin/env python3
"""Nothing persists from setup to the checks; this only verifies the tools."""
import os, subprocess, sys
G = "/opt/veriftools/go1.27.3/bin/go"
r = subprocess.run([G, "version"])
sys.exit(r.returncode)
