"""Path exploration, assumptions, obligations and their discharge."""
import time
import z3

from . import terms
from .terms import Sc, B, TRUE, FALSE, Interp, Unsupported, is_zero, Atom


class PathEnd(Exception):
    """this path is finished (e.g. after the inductive step of a loop)"""


class Infeasible(Exception):
    pass


class Obl:
    __slots__ = ("name", "status", "backend", "time", "detail", "path")

    def __init__(self, name, status, backend, t, detail="", path=""):
        self.name, self.status, self.backend = name, status, backend
        self.time, self.detail, self.path = t, detail, path


class Ctx:
    def __init__(self):
        self.obls = []
        self.fn = {}             # functions under contract -> number of obligations
        self.assumed = {}        # assumption text -> count
        self.covers = {}         # reachability marks
        self.contracts_used = {}
        self.solver_time = 0.0
        self.queries = 0
        self.unsupported = []
        self.paths = 0
        self.inlined = {}
        self.reset_path([])
        self.worklist = []
        self.cur = "?"
        self.strict_div = False
        self.deadline = None
        self.path_cap = 600

    # ---------------------------------------------------------------- paths
    quiet = False       # unrolled prefixes (role discovery): proved obligations are not counted

    def reset_path(self, prefix):
        self.quiet = False
        self.prefix = list(prefix)
        self.pos = 0
        self.taken = []
        self.zs = []
        self.bs = []
        self.ids = set()
        self.known = {}
        self.maxima = []
        self.on_max = None      # told where the maximum of a symbolic-length array is

    def add(self, b):
        self.bs.append(b)
        self.zs.append(terms.b_z3(b))
        self.known[b.key()] = True
        self.known[(~b).key()] = False
        terms.b_atoms(b, self.ids)

    def check(self, extra, timeout=4000, ids=()):
        s = z3.Solver()
        s.set("timeout", timeout)
        ids = set(self.ids) | set(ids)
        for z in self.zs:
            s.add(z)
        for z in terms.side_axioms(ids):
            s.add(z)
        for z in extra:
            s.add(z)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        return str(r), (s.model() if r == z3.sat else None)

    def decide(self, b):
        k = self.known.get(b.key())
        if k is not None:
            return k
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the exploration used up")
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            ids = terms.b_atoms(b, set())
            zb = terms.b_z3(b)
            rt, _ = self.check([zb], 2000, ids)
            forced = None
            if rt == "unsat":
                forced = False
            else:
                rf, _ = self.check([z3.Not(zb)], 2000, ids)
                if rf == "unsat":
                    forced = True
            if forced is not None:
                # recorded as well, so that a replay of the prefix stays aligned
                self.pos += 1
                self.taken.append(forced)
                self.prefix = list(self.taken)
                self.add(b if forced else ~b)
                return forced
            v = True
            self.worklist.append(self.taken + [False])
            self.prefix = self.taken + [True]
        self.pos += 1
        self.taken.append(v)
        self.add(b if v else ~b)
        return v

    def choose(self, name):
        """nondeterministic (demonic) choice: both sides are explored"""
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = True
            self.worklist.append(self.taken + [False])
            self.prefix = self.taken + [True]
        self.pos += 1
        self.taken.append(v)
        return v

    def assume(self, b, why=None):
        b = B.of(b)
        if why:
            self.assumed[why] = self.assumed.get(why, 0) + 1
        if b.const() is True:
            return
        if b.const() is False:
            raise Infeasible()
        if self.known.get(b.key()) is True:
            return
        self.add(b)

    def feasible(self):
        r, _ = self.check([], 3000)
        return r != "unsat"

    def path_text(self):
        return " & ".join(repr(b) for b in self.bs[-8:])

    # ---------------------------------------------------------- obligations
    def _rec(self, name, status, backend, t0, detail=""):
        if status == "proved" and self.quiet:
            return True
        o = Obl("%s/%s" % (self.cur, name), status, backend, time.time() - t0, detail,
                self.path_text() if status != "proved" else "")
        self.obls.append(o)
        self.fn[self.cur] = self.fn.get(self.cur, 0) + 1
        return status == "proved"

    def prove(self, name, b, detail=""):
        t0 = time.time()
        b = B.of(b)
        if b.const() is True:
            return self._rec(name, "proved", "ring", t0)
        if self.known.get(b.key()) is True:
            return self._rec(name, "proved", "path", t0)
        ids = terms.b_atoms(b, set())
        cplx = any(Atom.by_id[i].sort == "C" for i in ids)
        if not cplx:
            r, model = self.check([z3.Not(terms.b_z3(b))], 20000, ids)
            if r == "unsat":
                return self._rec(name, "proved", "z3", t0)
        else:
            r, model = "unknown", None
        ok, why = self.triage(b, model, ids)
        return self._rec(name, "refuted" if ok else "unknown", "z3", t0,
                         (detail + " goal: %r" % (b,) + " " + why)[:1500])

    def triage(self, b, model, ids):
        """is there an interpretation satisfying the path and violating b?"""
        fixed0 = {}
        allids = set(ids) | set(self.ids)
        interp = {"exp", "log", "sqrt", "abs", "inv", "floor", "pow", "sin", "cos", "factorial", "I", "pi"}
        if model is not None:
            if not any(Atom.by_id[i].name in interp - {"inv", "abs", "floor", "sqrt"} for i in allids):
                return True, "counter-model: %s" % str(model)[:600].replace("\n", " ")
            for i in allids:
                a = Atom.by_id[i]
                if a.args or a.sort == "C" or a.name == "pi":
                    continue
                v = model.eval(terms.atom_z3(a), model_completion=True)
                try:
                    f = float(v.as_fraction()) if not z3.is_algebraic_value(v) else float(v.approx(12).as_fraction())
                    fixed0[i] = int(f) if a.sort == "I" else f
                except Exception:
                    pass
        tries = ([Interp("m", fixed0)] if fixed0 else []) + [Interp(k) for k in range(120)]
        for it in tries:
            try:
                if not all(it.b(x) for x in self.bs):
                    continue
                if b.op == "==":
                    x, y = it.sc(b.args[0]), it.sc(b.args[1])
                    if x != x or y != y:
                        continue
                    if abs(x - y) > 1e-7 * (1 + abs(x) + abs(y)):
                        return True, "evaluates to %.9g vs %.9g" % (abs(x), abs(y)) if isinstance(x, complex) else "evaluates to %.9g vs %.9g" % (x, y)
                elif not it.b(b):
                    return True, "false under a sampled interpretation"
            except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                continue
        return False, "(no counter-interpretation found)"

    def prove_eq(self, name, a, b, detail=""):
        from . import lin
        t0 = time.time()
        try:
            st, why = lin.compare(self, a, b)
        except Unsupported as e:
            return self._rec(name, "unknown", "unsupported", t0, str(e))
        return self._rec(name, st, why[0], t0, (detail + " " + why[1])[:1500] if st != "proved" else "")

    def scalar_zero(self, d):
        """status of the goal d == 0 under the current path; (status, backend, why)"""
        if is_zero(d):
            return "proved", "ring", ""
        if any(b.op == "==" for b in self.bs):
            from . import subst
            try:
                sb = subst.from_path(self.bs)
                if sb is not None and is_zero(sb.sc(d)):
                    return "proved", "path-equalities", ""
            except Unsupported:
                pass
        ids = d.atoms(True)
        if any(Atom.by_id[i].sort == "C" for i in ids):
            try:
                re, im = terms.real_(d), terms.imag_(d)
            except Unsupported:
                re = None
            if re is not None:
                s1 = self.scalar_zero(re)
                if s1[0] != "proved":
                    return s1
                return self.scalar_zero(im)
            b = B("==", d, Sc.of(0))
            ok, why = self.triage(b, None, ids)
            return ("refuted" if ok else "unknown"), "ring", why
        b = B("==", d, Sc.of(0))
        r, model = self.check([z3.Not(terms.b_z3(b))], 20000, ids)
        if r == "unsat":
            return "proved", "z3", ""
        ok, why = self.triage(b, model, ids)
        if not ok and any(x.op == "==" for x in self.bs):
            from . import subst
            try:
                sb = subst.from_path(self.bs)
                if sb is not None:
                    keep, self.bs = self.bs, [sb.b(x) for x in self.bs]
                    try:
                        d2 = sb.sc(d)
                        ok, why = self.triage(B("==", d2, Sc.of(0)), None, d2.atoms(True))
                    finally:
                        self.bs = keep
            except Unsupported:
                pass
        return ("refuted" if ok else "unknown"), "z3", ("%r != 0 ; " % (d,))[:700] + why

    def cover(self, name):
        """reachability mark; counts only where the assumptions of the path are satisfiable"""
        if self.covers.get(name, 0) == 0 and not self.feasible():
            return
        self.covers[name] = self.covers.get(name, 0) + 1

    def note(self, text):
        self.assumed[text] = self.assumed.get(text, 0) + 1

    # ------------------------------------------------------------- running
    def run(self, name, fn, cap=None, budget=None):
        """explore all paths of fn(ctx)"""
        self.cur = name
        self.fn.setdefault(name, 0)
        self.worklist = [[]]
        n = 0
        t_end = time.time() + (budget or 120)
        while self.worklist:
            prefix = self.worklist.pop()
            self.reset_path(prefix)
            n += 1
            self.paths += 1
            if n > (cap or self.path_cap) or time.time() > t_end:
                self.unsupported.append("%s: path/time cap reached after %d paths" % (name, n))
                break
            try:
                terms._decider[0] = self.decide
                terms._nonzero_hook[0] = self._nonzero
                self.deadline = t_end
                fn()
            except PathEnd:
                pass
            except Infeasible:
                pass
            except Unsupported as e:
                self.unsupported.append("%s: %s" % (name, e))
                break
            except RecursionError as e:
                self.unsupported.append("%s: recursion" % (name,))
                break
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                where = " < ".join("%s:%s" % (f.filename.rpartition("/")[2], f.lineno) for f in reversed(tb[-4:]))
                self.unsupported.append("%s: %s: %.300s (%s)" % (name, type(e).__name__, e, where))
                break
            finally:
                terms._decider[0] = None
                terms._nonzero_hook[0] = None
        return n

    def _nonzero(self, s):
        b = ~terms.cmp_("==", s, 0)
        if b.const() is not None or self.known.get(b.key()) is True:
            return
        if all(Atom.by_id[a].pos for m in s.p for a, _ in m) and len(s.p) == 1:
            return
        ids = s.atoms(True)
        if any(Atom.by_id[i].sort == "C" for i in ids):
            self.note("divisor %.120r nonzero" % (s,))
            return
        r, _ = self.check([z3.Not(terms.b_z3(b))], 2000, ids)
        if r == "unsat":
            return
        if self.strict_div:
            self.prove("nonzero-divisor", b)
        else:
            self.note("divisor nonzero: %.120r" % (s,))
        self.assume(b)


CTX = Ctx()
