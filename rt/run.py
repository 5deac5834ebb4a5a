"""python -m rt.run C01 --tier quick --seed 1 [--replay FILE] [--only NAME] -> JSON on fd/--out"""
import argparse
import contextlib
import importlib
import io
import json
import os
import sys
import time
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float, default=150)
    ap.add_argument("--out")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    real = sys.stdout
    sink = io.StringIO()
    res = dict(evaluations=0, passed=0, skipped=[], failures=[], samples=[], contracts={}, truncated=False)
    with contextlib.redirect_stdout(sink):
        from rt import common
        try:
            importlib.import_module("rt." + a.pid)
        except Exception as e:
            import traceback
            if common.in_repo(e.__traceback__):
                # the package itself cannot be imported on this tree
                fr = traceback.format_exc()[-1500:]
                res["failures"].append(dict(contract="import", seed=0, detail="the package cannot be imported: %s" % fr, case={}))
            else:
                raise
    if a.replay:
        r = json.load(open(a.replay))
        for c in common.REG:
            if c.name == r.get("contract"):
                with contextlib.redirect_stdout(sink):
                    st, d, case = common.run_case(c, r["seed"])
                print(json.dumps(dict(contract=c.name, status=st, detail=d, case=common.jsonable(case)), indent=1), file=real)
                sys.exit(1 if st == "bad" else 0)
        print("no such contract", file=real)
        sys.exit(2)
    for c in common.REG:
        if a.only and a.only != c.name:
            continue
        n = dict(quick=c.quick, thorough=c.thorough, search=c.search)[a.tier]
        st = dict(n=0, ok=0, skip=0, bad=0)
        tc = time.time()
        for i in range(n):
            if time.time() - t0 > a.budget and i >= c.minq:
                res["truncated"] = True
                break
            seed = (a.seed * 1000003 + zlib.crc32(c.name.encode()) + i * 7919) % (1 << 31)
            sink.truncate(0)
            sink.seek(0)
            with contextlib.redirect_stdout(sink):
                s, d, case = common.run_case(c, seed)
            st["n"] += 1
            st[s] += 1
            res["evaluations"] += 1
            if s == "ok":
                res["passed"] += 1
                if len(res["samples"]) < 6 and st["ok"] == 1:
                    res["samples"].append(dict(contract=c.name, seed=seed, case=common.jsonable(case)))
            elif s == "skip":
                res["skipped"].append(dict(contract=c.name, why=d[:500]))
                if st["skip"] >= 2 and st["ok"] == 0:
                    break
            else:
                res["failures"].append(dict(contract=c.name, seed=seed, detail=d[:1500], case=common.jsonable(case)))
                break
        st["time"] = round(time.time() - tc, 2)
        res["contracts"][c.name] = st
        if a.v:
            print(c.name, st, file=real)
            for f in res["failures"]:
                if f["contract"] == c.name:
                    print("   FAIL", f["detail"], f["case"], file=real)
            for f in res["skipped"]:
                if f["contract"] == c.name:
                    print("   skip", f["why"], file=real)
    res["wall"] = round(time.time() - t0, 2)
    if a.out:
        json.dump(res, open(a.out, "w"))
    elif not a.v:
        json.dump(res, real)


if __name__ == "__main__":
    main()
