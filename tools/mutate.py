"""Mutation testing of the symbolic contracts (development aid; no check uses it).

mutate.py PID module.function ... [--max N] : mutates the named functions of /repo one place
at a time and lists the mutants that the verifier does not refute."""
import argparse, ast, copy, os, random, shutil, subprocess, json, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")


def sites(fn):
    """(description, mutator applied to a deep copy) pairs"""
    out = []
    nodes = [n for n in ast.walk(fn)]
    for idx, n in enumerate(nodes):
        def add(desc, f, idx=idx):
            out.append((getattr(nodes[idx], "lineno", 0), desc, idx, f))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            for v in {n.value + 1, -n.value, 0} - {n.value}:
                add("%r -> %r" % (n.value, v), lambda m, v=v: setattr(m, "value", v))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add("flip %r" % n.value, lambda m: setattr(m, "value", not m.value))
        if isinstance(n, ast.BinOp):
            for o in {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult]}.get(type(n.op), []):
                add("%s -> %s" % (type(n.op).__name__, o.__name__), lambda m, o=o: setattr(m, "op", o()))
            add("keep left of %s" % type(n.op).__name__, lambda m: ("sub", m.left))
            add("keep right of %s" % type(n.op).__name__, lambda m: ("sub", m.right))
        if isinstance(n, ast.Compare):
            for o in (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq):
                if type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq) and type(n.ops[0]) is not o:
                    add("%s -> %s" % (type(n.ops[0]).__name__, o.__name__), lambda m, o=o: m.ops.__setitem__(0, o()))
        if isinstance(n, ast.UnaryOp):
            add("drop %s" % type(n.op).__name__, lambda m: ("sub", m.operand))
        if isinstance(n, ast.BoolOp):
            add("and/or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            add("swap args", lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]]))
        if isinstance(n, ast.Call) and n.keywords:
            for ki in range(len(n.keywords)):
                add("drop keyword %s" % n.keywords[ki].arg, lambda m, ki=ki: m.keywords.pop(ki))
        for fld in ("body", "orelse"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for i, st in enumerate(b):
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.Assert)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        if isinstance(st, ast.Expr) and ast.unparse(st).startswith("print"):
                            continue
                        add("drop: %s" % ast.unparse(st).split("\n")[0][:80], lambda m, fld=fld, i=i: getattr(m, fld).__setitem__(i, ast.Pass()))
        if isinstance(n, ast.If):
            add("negate if", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            pass
    return out


class Sub(ast.NodeTransformer):
    def __init__(self, target, new):
        self.t, self.n = target, new

    def visit(self, node):
        if node is self.t:
            return self.n
        return self.generic_visit(node)


def mutate(src, qual, site):
    tree = ast.parse(src)
    fn = find(tree, qual)
    nodes = [n for n in ast.walk(fn)]
    m = nodes[site[2]]
    r = site[3](m)
    if isinstance(r, tuple) and r[0] == "sub":
        Sub(m, r[1]).visit(fn)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


def find(tree, qual):
    cur = tree
    for p in qual.split("."):
        cur = next(n for n in cur.body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p)
    return cur


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("fns", nargs="+")
    ap.add_argument("--max", type=int, default=200); ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--seed", type=int, default=0); ap.add_argument("--grep", default=""); ap.add_argument("--rt", action="store_true")
    a = ap.parse_args()
    jobs = []
    for q in a.fns:
        module, _, qual = q.partition(".")
        path = "ormatex_py/%s.py" % module
        if not os.path.exists(os.path.join(REPO, path)):
            path = "ormatex_py/progression/%s.py" % module
        src = open(os.path.join(REPO, path)).read()
        try:
            fn = find(ast.parse(src), qual)
        except StopIteration:
            print("no such function", q)
            continue
        for s in sites(fn):
            if a.grep in s[1]:
                jobs.append((path, src, qual, s))
    random.Random(a.seed).shuffle(jobs)
    jobs = jobs[:a.max]

    def one(j):
        path, src, qual, s = j
        try:
            new = mutate(src, qual, s)
        except Exception as e:
            return j, "unbuildable"
        d = tempfile.mkdtemp(prefix="mutate-", dir="/tmp/mut")
        try:
            shutil.copytree(os.path.join(REPO, "ormatex_py"), os.path.join(d, "ormatex_py"), ignore=shutil.ignore_patterns("__pycache__"))
            open(os.path.join(d, path), "w").write(new)
            p = subprocess.run(["python3-vt", "-m", "ovc.run", a.pid], cwd=H, env=dict(os.environ, OVC_REPO=d), capture_output=True, text=True, timeout=600)
            try:
                r = json.loads(p.stdout)
            except Exception:
                return j, "no answer " + p.stderr[-200:]
            obl = [o for t in r for o in t["obls"]]
            ref = [o for o in obl if o["status"] == "refuted"]
            unk = [o for o in obl if o["status"] not in ("refuted", "proved")]
            uns = [u for t in r for u in t["unsupported"]]
            mis = [c for t in r for c in t["missing_covers"]]
            if ref:
                return j, "refuted"
            if a.rt:
                w = tempfile.mkdtemp(dir="/tmp/mut")
                env = dict(os.environ, OVC_REPO=d, JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", MPLCONFIGDIR="/opt/vp/mplconfig", HOME="/root", PYTHONPATH=H)
                p = subprocess.run(["/opt/venv/bin/python", "-m", "rt.run", a.pid, "-v"], cwd=w, env=env, capture_output=True, text=True, timeout=900)
                shutil.rmtree(w, ignore_errors=True)
                if " FAIL " in p.stdout or p.stdout.startswith("FAIL"):
                    return j, "runtime"
            if unk or uns or mis:
                return j, "undecided: " + (unk[0]["name"] if unk else (uns + mis)[0])[:200]
            return j, "SURVIVED"
        except subprocess.TimeoutExpired:
            return j, "timeout"
        finally:
            shutil.rmtree(d, ignore_errors=True)
    cnt = {}
    with ThreadPoolExecutor(a.jobs) as ex:
        for j, st in ex.map(one, jobs):
            k = st.split(":")[0].split(" ")[0]
            cnt[k] = cnt.get(k, 0) + 1
            if k not in ("refuted", "runtime", "unbuildable"):
                print("%-10s %s line %d: %s" % (st[:160], j[2], j[3][0], j[3][1]), flush=True)
    print(cnt)


if __name__ == "__main__":
    main()
