"""Sanity of the toolchain the checks use; nothing is kept between runs."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
assert os.path.exists("/opt/veriftools/tla/tla2tools.jar")
subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
print("ok")
