"""development helper: make and confirm planted bugs.  usage: seed.py DEFS.py [id ...] [--notest]
DEFS.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo (python text), needs, what)]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", MPLCONFIGDIR="/opt/vp/mplconfig", HOME="/root")
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\nimport jax\njax.config.update('jax_enable_x64', True)\nimport jax.numpy as jnp\n"
SH = '''#!/bin/bash
export HOME=/root PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg MPLCONFIGDIR=/opt/vp/mplconfig
exec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **k), capture_output=True, text=True)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = [a for a in sys.argv[2:] if not a.startswith("-")]
    for s in ns["SEEDS"]:
        if want and s["id"] not in want:
            continue
        base = tempfile.mkdtemp(prefix="seed-")
        r = os.path.join(base, "repo")
        shutil.copytree("/repo", r, symlinks=True)
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.py"), "w").write(HEAD + s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        clean = run(["bash", os.path.join(d, "demo.sh")], r)
        for f, o, n in s["edits"]:
            p = os.path.join(r, "ormatex_py", f)
            t = open(p).read()
            assert t.count(o) == 1, (s["id"], f, o, t.count(o))
            open(p, "w").write(t.replace(o, n))
        diff = run(["git", "diff"], r).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        bad = run(["bash", os.path.join(d, "demo.sh")], r)
        tests = None
        if "--notest" not in sys.argv:
            tests = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "4", "-p", "no:cacheprovider", "--deselect", "tests/test_rust_py.py::test_arnoldi_rs", "tests"], r, PYTHONPATH=r)
        ok = clean.returncode == 0 and bad.returncode != 0 and (tests is None or tests.returncode == 0)
        print(s["id"], "OK" if ok else "BAD", "clean", clean.returncode, "patched", bad.returncode, "tests", tests and tests.stdout.strip().splitlines()[-1])
        if not ok:
            print(clean.stderr[-800:] if clean.returncode else "", tests.stdout[-1500:] if tests and tests.returncode else "", bad.stdout[-300:])
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.rmtree(base)
        sys.stdout.flush()
main()
