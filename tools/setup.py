#!/usr/bin/env python3
"""Checks that the tools the checks need are there: java, TLC, the library's environment.  Builds nothing that must be kept."""
import os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import vkit
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(HERE, "lib", "java")
    subprocess.run(["javac", "-nowarn", "-cp", vkit.JARS, "-d", d] + [os.path.join(src, f) for f in sorted(os.listdir(src))], check=True)
subprocess.run([vkit.VENV_PY, "-c", "import numpy, pandas, scipy"], check=True)
print("ready")
