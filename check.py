#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

1. the contract verifier (ovc) generates and discharges every obligation from the current
   source of /repo;
2. the same contracts are evaluated on the real code (rt) for seeded inputs: replay of
   refuted obligations, conformance of the assumed library contracts, bounded stand-ins;
3. a refuted obligation without a failing input triggers a longer directed search.
Exit 0: held.  Exit 1: VIOLATION line.  See DESIGN.md, section "Decision rule".
"""
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = os.environ.get("OVC_PY", "python3-vt")
PY = os.environ.get("OVC_JAX_PY", "/opt/venv/bin/python")
REPO = os.environ.get("OVC_REPO", "/repo")


def env():
    e = dict(os.environ)
    e.update(JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
             PYTHONPATH=HERE, OVC_REPO=REPO, TF_CPP_MIN_LOG_LEVEL="3")
    e.setdefault("HOME", "/root")
    if os.path.isdir("/opt/vp/mplconfig"):
        e.setdefault("MPLCONFIGDIR", "/opt/vp/mplconfig")
    return e


LEMMAS = {"C08": ("BlockExp", "PhiDoubling"), "C09": ("BlockExp",), "C12": ("BlockExp",), "C13": ("BlockExp",), "C17": ("Circle",), "C19": ("Bateman",)}


def start(cmd, cwd, out, err):
    return subprocess.Popen(cmd, cwd=cwd, env=env(), stdout=open(out, "w"), stderr=open(err, "w"), start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, 9)
    except Exception:
        pass
    p.wait()


def finish(p, limit, t0):
    try:
        p.wait(max(1, limit - (time.time() - t0)))
        return True
    except subprocess.TimeoutExpired:
        stop(p)
        return False


def load(path):
    try:
        return json.load(open(path))
    except Exception:
        return None


def tail(path, n=1500):
    try:
        return open(path).read()[-n:]
    except Exception:
        return ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    pid, tier = a.pid, ("thorough" if a.tier == "thorough" else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    man = load(os.path.join(HERE, "MANIFEST.json")) or {"checks": []}
    level = next((c["level"] for c in man["checks"] if c["property"] == pid), "proof")
    known = [k for k in (load(os.path.join(HERE, "known_findings.json")) or {"findings": []})["findings"]
             if k["property"] == pid and k.get("status") == "known"]
    work = tempfile.mkdtemp(prefix="ovc-%s-" % pid)
    outdir = os.path.join(HERE, "out")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    try:
        has_spec = os.path.exists(os.path.join(HERE, "specs", pid + ".py"))
        has_rt = os.path.exists(os.path.join(HERE, "rt", pid + ".py"))
        f = lambda n: os.path.join(work, n)
        pv = start([VT, "-m", "ovc.run", pid, "--tier", tier], work, f("v.json"), f("v.err")) if has_spec else None
        rb = 170 if tier == "quick" else 420
        pr = start([PY, "-m", "rt.run", pid, "--tier", tier, "--seed", str(seed), "--budget", str(rb), "--out", f("r.json")],
                   work, f("r.out"), f("r.err")) if has_rt else None
        pc = start([VT, "-m", "ovc.conform"], work, f("c.json"), f("c.err")) if tier == "thorough" else None
        pl = [(n, start(["lean", os.path.join(HERE, "lean", n + ".lean")], work, f(n + ".out"), f(n + ".err")))
              for n in LEMMAS.get(pid, ())] if tier == "thorough" and shutil.which("lean") else []
        vlim = 420 if tier == "quick" else 800
        rlim = 420 if tier == "quick" else 800
        vok = finish(pv, vlim, t0) if pv else True
        rok = finish(pr, rlim, t0) if pr else True
        tasks = load(f("v.json")) if pv else []
        rt = load(f("r.json")) if pr else None
        errs = []
        if tasks is None:
            errs.append("verifier gave no answer: " + tail(f("v.err")))
            tasks = []
        if pr and rt is None:
            errs.append("runtime contracts gave no answer: " + tail(f("r.err")))
            rt = None
        if pc:
            finish(pc, rlim, t0)
        conf = load(f("c.json")) if pc else None
        lemmas = {n: "checked by lean" if finish(p, rlim, t0) and p.returncode == 0 else "lean gave no verdict here" for n, p in pl}
        obls = [o for t in tasks for o in t["obls"]]
        refuted = [o for o in obls if o["status"] == "refuted"]
        unknown = [o for o in obls if o["status"] not in ("proved", "refuted")]
        unsup = [u for t in tasks for u in t["unsupported"]]
        missing = ["%s: %s not reached" % (t["task"], c) for t in tasks for c in t["missing_covers"]]
        fails = list(rt["failures"]) if rt else []
        searched = None
        undecided = bool(refuted or unknown or unsup or missing or errs)
        new = [x for x in fails if not any(match(k, x) for k in known)]
        if has_rt and not new and undecided:
            budget = 240 if tier == "quick" else 300
            ps = start([PY, "-m", "rt.run", pid, "--tier", "search", "--seed", str(seed + 17), "--budget", str(budget), "--out", f("s.json")],
                       work, f("s.out"), f("s.err"))
            finish(ps, time.time() - t0 + budget + 60, t0)
            searched = load(f("s.json"))
            if searched:
                fails += searched["failures"]
        new = [x for x in fails if not any(match(k, x) for k in known)]
        kfound = [(k, x) for x in fails for k in known if match(k, x)]
        refuted_new = [o for o in refuted if not any(k.get("obligation") and k["obligation"] in o["name"] for k in known)]
        nd = sum(1 for o in obls if o["status"] == "proved")
        if has_spec and not obls and not unsup and not errs:
            errs.append("no obligation was generated")
        # ---------------------------------------------------------- verdict
        violation = None
        if new:
            x = new[0]
            violation = dict(kind="replayed", **x)
        elif refuted_new:
            o = refuted_new[0]
            violation = dict(kind="no-failing-input-found", obligation=o["name"], detail=o["detail"], path=o["path"], backend=o["backend"])
        ev = evidence(pid, tier, seed, level, tasks, obls, nd, unknown, refuted, unsup, missing, errs, rt, searched,
                      time.time() - t0, 1 if violation else 0, known, kfound)
        if conf:
            ev["coverage"]["library_contract_conformance"] = dict(
                conf, note="expressions evaluated by the assumed library contracts and by the installed libraries (testing)")
        if lemmas:
            ev["coverage"]["lemmas"] = lemmas
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
        print("%s %s: %d/%d obligations discharged (bounded stand-ins included), %d refuted, %d undecided, %d unsupported; runtime %s/%s contracts evaluated ok, %d failures; %.1fs" % (
            pid, tier, nd, len(obls), len(refuted), len(unknown), len(unsup) + len(missing) + len(errs),
            (rt or {}).get("passed", 0), (rt or {}).get("evaluations", 0), len(fails), time.time() - t0))
        for o in (refuted + unknown)[:8]:
            print("  %s: %s %s" % (o["status"], o["name"], o["detail"][:300].replace("\n", " ")))
        for u in (unsup + missing + errs)[:8]:
            print("  undecided: %s" % u[-700:].replace("\n", " "))
        for s in (rt or {}).get("skipped", [])[:4]:
            print("  runtime contract not evaluated: %s: %s" % (s["contract"], s["why"][:300].replace("\n", " ")))
        if violation:
            rp = os.path.join(outdir, "replay-%s.json" % pid)
            violation.update(property=pid, tree=REPO,
                             how="cd /verif && JAX_PLATFORMS=cpu PYTHONPATH=/verif %s -m rt.run %s --replay %s" % (PY, pid, rp)
                             if violation["kind"] == "replayed" else
                             "cd /verif && %s -m ovc.run %s -v" % (VT, pid),
                             refuted_obligations=[dict(name=o["name"], detail=o["detail"], path=o["path"]) for o in refuted[:10]])
            json.dump(violation, open(rp, "w"), indent=1)
            print("  " + str(violation.get("detail", ""))[:900].replace("\n", " "))
            print("VIOLATION property=%s replay=%s%s" % (
                pid, rp, " no-failing-input-found" if violation["kind"] != "replayed" else ""))
            sys.exit(1)
        sys.exit(0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def match(k, x):
    return k.get("contract") and k["contract"] == x["contract"] and k.get("key", "") in x["detail"]


def evidence(pid, tier, seed, level, tasks, obls, nd, unknown, refuted, unsup, missing, errs, rt, searched, wall, viol, known, kfound):
    backends = {}
    for o in obls:
        if o["status"] == "proved":
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    assumed = {}
    for t in tasks:
        for k, v in t["assumed"].items():
            assumed[k] = assumed.get(k, 0) + v
    contracts = {}
    for t in tasks:
        for k, v in t["contracts"].items():
            contracts[k] = contracts.get(k, 0) + v
    fns = sorted({f for t in tasks for f in t["functions"]})
    bnd = [t for t in tasks if t.get("bounded")]
    nb = sum(len(t["obls"]) for t in bnd)
    ndb = sum(1 for t in bnd for o in t["obls"] if o["status"] == "proved")
    cov = dict(
        obligations=len(obls) - nb, discharged=nd - ndb,
        bounded=dict(note="obligations of stand-ins with a stated bound; not counted as proved", obligations=nb, discharged=ndb,
                     tasks={t["task"]: t["bounded"] for t in bnd}),
        checker_cmd="python3-vt -m ovc.run %s --tier %s -v" % (pid, tier),
        trusted_base=["ovc (this verifier: extraction in ovc/load.py, term algebra in ovc/terms.py and ovc/lin.py)",
                      "library contracts of ovc/lib.py for jax, numpy, equinox, scipy (sampled against the installed libraries by ovc/conform.py and the runtime contracts)",
                      "z3 5.3.2; mpmath.iv interval arithmetic where discharged_by names it",
                      "floating point treated as exact real arithmetic"],
        functions_under_contract=fns,
        discharged_by=backends,
        undischarged=[o["name"] for o in unknown + refuted],
        unsupported=unsup[:20] + missing[:20] + errs[:5],
        paths=sum(t["paths"] for t in tasks), solver_queries=sum(t["queries"] for t in tasks),
        solver_time_s=round(sum(t["solver_time"] for t in tasks), 3),
        tasks={t["task"]: dict(obligations=len(t["obls"]), paths=t["paths"], covers=t["covers"], wall_s=round(t["wall"], 2)) for t in tasks},
        callee_contracts_used=contracts,
        obligations_sample=[o["name"] for o in obls[:40]],
    )
    if rt is not None:
        cov.update(
            evaluations=rt["evaluations"], distinct_nontrivial=rt["passed"],
            rule="runtime (bounded, not counted as proved): seeded random inputs through the real code; non-trivial = the contract was evaluated to the end",
            samples=rt["samples"][:4], runtime_contracts=rt["contracts"], runtime_skipped=rt["skipped"][:5],
            runtime_failures=len(rt["failures"]))
    if searched is not None:
        cov["directed_search_evaluations"] = searched["evaluations"]
    if level not in ("proof",):
        cov["explanation"] = "see DESIGN.md"
    return dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
                assumptions=sorted("%s (%d uses)" % kv for kv in assumed.items()),
                wall_s=round(wall, 2), violations=viol)


if __name__ == "__main__":
    main()
