"""Offline setup: everything needed is committed; this only verifies the tools are there."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
for j in vf.JARS.split(":"):
    assert os.path.exists(j), j
subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
import spey  # noqa
print("setup ok")
