"""Run the contract tasks of one property:  python3-vt -m ovc.run C01 [--tier quick] [--task NAME]

Prints one JSON object: obligations with status, assumptions, covers, unsupported, times.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def one(args):
    pid, idx, tier = args
    t0 = time.time()
    sys.setrecursionlimit(8000)
    import resource
    lim = int(os.environ.get("OVC_MEM_GB", "6")) << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    devnull = open(os.devnull, "w")
    out = sys.stdout
    sys.stdout = devnull
    try:
        mod = importlib.import_module("specs." + pid)
        from ovc.explore import CTX
        task = mod.tasks()[idx]
        CTX.run(task.name, task.fn, cap=task.cap, budget=task.budget)
        missing = [c for c in task.covers if c not in CTX.covers]
        return dict(task=task.name, functions=task.functions, bounded=task.bounded,
                    obls=[dict(name=o.name, status=o.status, backend=o.backend, time=round(o.time, 4),
                               detail=o.detail, path=o.path[:600]) for o in CTX.obls],
                    assumed=CTX.assumed, contracts=CTX.contracts_used, unsupported=CTX.unsupported,
                    covers=CTX.covers, missing_covers=missing, paths=CTX.paths, queries=CTX.queries,
                    solver_time=round(CTX.solver_time, 3), wall=round(time.time() - t0, 3))
    except MemoryError:
        return dict(task=str(idx), functions=[], obls=[], assumed={}, contracts={}, unsupported=["out of memory"],
                    covers={}, missing_covers=[], paths=0, queries=0, solver_time=0, wall=time.time() - t0)
    except BaseException as e:
        return dict(task=str(idx), functions=[], obls=[], assumed={}, contracts={},
                    unsupported=["checker: %s" % traceback.format_exc()[-1500:]],
                    covers={}, missing_covers=[], paths=0, queries=0, solver_time=0, wall=time.time() - t0)
    finally:
        sys.stdout = out


def child(args, conn):
    try:
        conn.send(one(args))
    except BaseException as e:
        try:
            conn.send(dict(task=str(args[1]), functions=[], obls=[], assumed={}, contracts={}, unsupported=["child: %r" % e],
                           covers={}, missing_covers=[], paths=0, queries=0, solver_time=0, wall=0))
        except Exception:
            pass
    conn.close()


def run(pid, tier="quick", only=None, timeout=240, jobs=7):
    mod = importlib.import_module("specs." + pid)
    tasks = mod.tasks()
    todo = [i for i, t in enumerate(tasks) if (only is None or t.name == only) and (tier == "thorough" or t.tier == "quick")]
    res = {}
    ctx = mp.get_context("fork")
    running = []
    queue = sorted(todo, key=lambda i: -tasks[i].weight)
    while queue or running:
        while queue and len(running) < jobs:
            i = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=((pid, i, tier), b))
            p.start()
            b.close()
            running.append((i, p, a, time.time()))
        for r in list(running):
            i, p, a, t0 = r
            done = None
            if a.poll(0.01):
                try:
                    done = a.recv()
                except EOFError:
                    done = dict(task=tasks[i].name, functions=tasks[i].functions, obls=[], assumed={}, contracts={},
                                unsupported=["verifier process died"], covers={}, missing_covers=[], paths=0,
                                queries=0, solver_time=0, wall=time.time() - t0)
            elif time.time() - t0 > timeout:
                done = dict(task=tasks[i].name, functions=tasks[i].functions, obls=[], assumed={}, contracts={},
                            unsupported=["task time limit of %ds" % timeout], covers={}, missing_covers=[], paths=0,
                            queries=0, solver_time=0, wall=time.time() - t0)
            if done is not None:
                p.kill()
                p.join()
                a.close()
                res[i] = done
                running.remove(r)
    return [res[i] for i in todo]


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--task")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    rs = run(a.pid, a.tier, a.task)
    if a.v:
        for r in rs:
            bad = [o for o in r["obls"] if o["status"] != "proved"]
            print("%-28s %d/%d proved, paths %d, queries %d, %.1fs %s" % (
                r["task"], len(r["obls"]) - len(bad), len(r["obls"]), r["paths"], r["queries"], r["wall"], r["missing_covers"] or ""))
            for o in bad:
                print("   ", o["status"], o["name"], o["detail"][:400], "| path:", o["path"][:300])
            for u in r["unsupported"]:
                print("    unsupported:", u[:1500])
    else:
        json.dump(rs, sys.stdout)
