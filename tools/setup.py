#!/usr/bin/env python3
"""Warm-up: builds one enumeration binary per configuration. The checks rebuild whatever they need themselves."""
import subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.exit(subprocess.call([sys.executable, os.path.join(V, "check.py"), "C01", "--build-only"], cwd=V))
