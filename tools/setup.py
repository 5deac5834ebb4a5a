"""setup: nothing needs building; checks that the interpreters answer"""
import subprocess, sys
subprocess.check_call(["python3-vt", "-c", "import z3, numpy, scipy"])
subprocess.check_call(["/opt/venv/bin/python", "-c", "import jax, equinox, scipy"])
print("ok")
