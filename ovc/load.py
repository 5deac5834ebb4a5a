"""Mechanical extraction of the verified program from /repo.

Every module of ormatex_py is read from the working tree on each run, parsed, and
executed with the library contracts of ovc/lib.py.  The transformation keeps every
statement except:
  * `print(...)` expression statements (dropped),
  * annotations (not evaluated),
  * float literals: read as the decimal rational they spell,
  * `/`: exact division,
  * `for`/`while` loops: instrumented so that a loop contract can cut them,
  * `if __name__ == "__main__"` bodies (never executed).
"""
import ast
import builtins
import os
import sys
import types
import warnings

from . import terms, lin, lib
from .terms import Sc, B, Unsupported

REPO = os.environ.get("OVC_REPO", "/repo")


class Tr(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.fn = []
        self.n = 0
        self.loopstack = []
        self.locals = []

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        self.loopstack.append(None)
        self.locals.append(_assigned(node.body) | {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs})
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d else d for d in node.args.kw_defaults]
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        body = []
        for s in node.body:
            r = self.visit(s)
            if isinstance(r, list):
                body += r
            elif r is not None:
                body.append(r)
        node.body = body or [ast.Pass()]
        self.loopstack.pop()
        self.locals.pop()
        self.fn.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.fn.append(node.name)
        self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_Lambda(self, node):
        self.generic_visit(node)
        return node

    def visit_Expr(self, node):
        v = node.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "print":
            return ast.copy_location(ast.Pass(), node)
        self.generic_visit(node)
        return node

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return ast.copy_location(_call("_ovc_q", [ast.Constant(repr(node.value))]), node)
        if isinstance(node.value, complex):
            return ast.copy_location(_call("_ovc_c", [ast.Constant(repr(node.value.imag))]), node)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.fn and self.loopstack:
            return ast.copy_location(_call("_ovc_list", [node]), node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_AnnAssign(self, node):
        if self.fn and len(self.fn) and node.value is None:
            # keep bare annotations of class bodies (field declarations), unevaluated
            node.annotation = ast.Constant("annotation")
            return node
        node.annotation = ast.Constant("annotation")
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(_call("_ovc_div", [node.left, node.right]), node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(_call("_ovc_fmt", [node.left]), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            load = ast.parse(ast.unparse(node.target), mode="eval").body
            return ast.copy_location(ast.Assign([node.target], _call("_ovc_div", [load, node.value])), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("enumerate", "zip", "dict", "reversed") or (
                isinstance(node.func, ast.Name) and node.func.id in ("list", "tuple") and len(node.args) == 1 and not node.keywords):
            if node.func.id in ("list", "tuple"):
                node.func.id += "_of"
            node.func = ast.copy_location(ast.Name("_ovc_" + node.func.id, ast.Load()), node.func)
        return node

    # ---- loops
    def _loop(self, node, kind):
        self.n += 1
        var = "_ovc_L%d" % self.n
        self.loopstack.append(var)
        names = sorted(_assigned(node.body) | (_mutated(node.body) & (self.locals[-1] if self.locals else set())))
        body = []
        for s in node.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else ([r] if r is not None else [])
        self.loopstack.pop()
        key = ast.Constant("%s:%s" % (self.mod, ".".join(self.fn)))
        infn = bool(self.loopstack) and bool(self.fn)
        if not infn:
            if kind == "for":
                node.iter = self.visit(node.iter)
            else:
                node.test = self.visit(node.test)
            node.body = body
            return node
        loc = lambda: ast.Call(ast.Name("_ovc_locals", ast.Load()), [], [])
        tup = lambda ctx: ast.Tuple([ast.Name(x, ctx()) for x in names], ctx())
        nm = ast.Tuple([ast.Constant(x) for x in names], ast.Load())

        def meth(m, extra=()):
            return ast.Call(ast.Attribute(ast.Name(var, ast.Load()), m, ast.Load()), [loc()] + list(extra), [])

        def guarded(stmt):
            return ast.If(ast.Attribute(ast.Name(var, ast.Load()), "mode", ast.Load()), [stmt], [])
        enter = guarded(ast.Assign([tup(ast.Store)], meth("enter", [nm]))) if names else guarded(ast.Expr(meth("enter", [nm])))
        close = guarded(ast.Expr(meth("close")))
        leave = guarded(ast.Assign([tup(ast.Store)], meth("leave", [nm]))) if names else guarded(ast.Expr(meth("leave", [nm])))
        out = []
        if kind == "for":
            it = self.visit(node.iter)
            out.append(ast.Assign([ast.Name(var, ast.Store())], _call("_ovc_for", [key, it, loc()])))
            f = ast.For(node.target, ast.Name(var, ast.Load()), [enter] + body + [close], node.orelse)
            out += [f, leave]
        else:
            test = self.visit(node.test)
            out.append(ast.Assign([ast.Name(var, ast.Store())], _call("_ovc_while", [key, loc()])))
            t = ast.If(ast.UnaryOp(ast.Not(), ast.Call(ast.Attribute(ast.Name(var, ast.Load()), "test", ast.Load()), [test], [])),
                       [ast.Break()], [])
            w = ast.While(ast.Constant(True), [enter, t] + body + [close], node.orelse)
            out.append(w)
        for o in out:
            ast.copy_location(o, node)
        return out

    def visit_For(self, node):
        return self._loop(node, "for")

    def visit_DictComp(self, node):
        # {k: v for ...} -> dict([(k, v) for ...]): one hook for both
        lc = ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(_call("_ovc_dict", [self.visit(ast.copy_location(lc, node))]), node)

    def _comp(self, node, kind):
        """[e for x in it if c] -> _ovc_comp(it, lambda y: [e for x in (y,) if c]): one hook for abstract sequences"""
        gen = node.generators[0]
        if len(node.generators) != 1 or gen.is_async or any(
                isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node)):
            self.generic_visit(node)
            return node
        it = self.visit(gen.iter)
        arg = "_ovc_y"
        inner = ast.ListComp(self.visit(node.elt), [ast.comprehension(
            gen.target, ast.Tuple([ast.Name(arg, ast.Load())], ast.Load()), [self.visit(c) for c in gen.ifs], 0)])
        lam = ast.Lambda(ast.arguments([], [ast.arg(arg)], None, [], [], None, []), inner)
        return ast.copy_location(_call("_ovc_comp", [it, lam, ast.Constant(kind)]), node)

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_While(self, node):
        return self._loop(node, "while")

    def visit_Continue(self, node):
        var = self.loopstack[-1] if self.loopstack else None
        if var is None:
            return node
        close = ast.If(ast.Attribute(ast.Name(var, ast.Load()), "mode", ast.Load()),
                       [ast.Expr(ast.Call(ast.Attribute(ast.Name(var, ast.Load()), "close", ast.Load()),
                                          [ast.Call(ast.Name("_ovc_locals", ast.Load()), [], [])], []))], [])
        return [ast.copy_location(close, node), node]


def _assigned(body):
    names = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                names.add(n.id)

        def visit_FunctionDef(self, n):
            names.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
    for s in body:
        V().visit(s)
    return names


def _mutated(body):
    """names of arrays whose elements are assigned"""
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                b = n.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
    return out


def _call(name, args):
    return ast.Call(ast.Name(name, ast.Load()), args, [])


# ------------------------------------------------------------------ runtime
class SymRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = Sc.of(lo), Sc.of(hi), step

    def __iter__(self):
        i = self.lo
        for _ in range(lib.UNROLL[0]):
            if not bool(terms.cmp_("<", i, self.hi)):
                return
            yield i
            i = i + 1
        raise Unsupported("loop not bounded by %d iterations" % lib.UNROLL[0])

    def __len__(self):
        raise Unsupported("len(range) symbolic")


def o_range(*a):
    if any(isinstance(x, (Sc, B)) for x in a):
        a = [Sc.of(x) for x in a]
        if all(x.is_const() for x in a):
            return builtins.range(*[int(x) for x in a])
        if len(a) == 3:
            if a[2].is_const() and a[2].const() == 1:
                return SymRange(a[0], a[1])
            raise Unsupported("symbolic strided range")
        return SymRange(0, a[0]) if len(a) == 1 else SymRange(a[0], a[1])
    return builtins.range(*a)


class SymList(list):
    """list whose initial segment may be abstract: `n` elements given by `f`"""
    n = None
    f = None

    def havoc(self, n, f):
        self.clear()
        self.n, self.f = Sc.of(n), f
        return self

    def length(self):
        return self.n + list.__len__(self) if self.n is not None else Sc.of(list.__len__(self))

    def at(self, i):
        i = Sc.of(i)
        if self.n is None and i.is_const():
            return list.__getitem__(self, int(i))
        for k in range(list.__len__(self)):
            if bool(terms.cmp_("==", i, (self.n or 0) + k)):
                return list.__getitem__(self, k)
        return self.f(i)

    def __getitem__(self, i):
        if self.n is None:
            return list.__getitem__(self, i)
        if isinstance(i, slice):
            raise Unsupported("slice of an abstract list")
        if isinstance(i, int) and i < 0:
            if -i <= list.__len__(self):
                return list.__getitem__(self, i)
            return self.f(self.length() + i)
        return self.at(i)

    def __len__(self):
        if self.n is not None:
            raise Unsupported("concrete length of an abstract list")
        return list.__len__(self)

    def __iter__(self):
        if self.n is not None:
            raise Unsupported("iteration over an abstract list")
        return list.__iter__(self)

    def __bool__(self):
        return bool(terms.cmp_("<", 0, self.length()))


class AbsSeq:
    """abstract sequence of symbolic length: element i is item(i)"""
    abstract_seq = True

    def __init__(self, n, item):
        self.lo, self.hi, self.item = Sc.of(0), Sc.of(n), item

    def __len__(self):
        raise Unsupported("concrete length of an abstract sequence")

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.part(i)
        i = Sc.of(i)
        if lin.entails(terms.cmp_("<", i, 0)):
            i = self.hi + i
        return self.item(i)

    def part(self, s):
        if self.generic is not None:
            raise Unsupported("slice of an abstract sequence")
        st = 1 if s.step is None else Sc.of(s.step).const()

        def bound(x):
            x = Sc.of(x)
            x = self.hi + x if lin.entails(terms.cmp_("<", x, 0)) else x
            if not lin.entails(terms.cmp_("<=", 0, x) & terms.cmp_("<=", x, self.hi)):
                raise Unsupported("slice of an abstract sequence")
            return x
        if st == 1:
            a = Sc.of(0) if s.start is None else bound(s.start)
            b = self.hi if s.stop is None else bound(s.stop)
            r = lambda i: self.item(a + i)
            n = b - a
        elif st == -1:
            a = self.hi - 1 if s.start is None else bound(s.start)
            b = Sc.of(-1) if s.stop is None else bound(s.stop)
            r = lambda i: self.item(a - i)
            n = a - b
            if not lin.entails(terms.cmp_("<", a, self.hi)):
                raise Unsupported("slice of an abstract sequence")
        else:
            raise Unsupported("strided slice of an abstract sequence")
        if not lin.entails(terms.cmp_("<=", 0, n)):
            raise Unsupported("slice of an abstract sequence")
        return AbsSeq(n, r)

    generic = None

    def __iter__(self):
        """outside a loop contract (comprehensions): one generic element, to be generalised by the consumer"""
        if self.generic is None:
            raise Unsupported("iteration over an abstract sequence")
        yield self.item(self.generic)


def o_comp(it, f, kind):
    """comprehension over `it`; f(x) is the list of what element x contributes"""
    if isinstance(it, SymRange) and not it.hi.is_const() and SEQ_RANGES[0]:
        if it.step != 1 and not (Sc.of(it.step).is_const() and Sc.of(it.step).const() == 1):
            raise Unsupported("strided symbolic range")
        it = AbsSeq(it.hi - it.lo, lambda i, it=it: it.lo + i)
    if isinstance(it, AbsSeq) and it.generic is None:
        def item(i):
            r = f(it.item(i))
            if len(r) != 1:
                raise Unsupported("filtered comprehension over an abstract sequence")
            return r[0]
        return AbsSeq(it.hi, item)
    g = (y for x in it for y in f(x))
    return builtins.list(g) if kind == "list" else g


SEQ_RANGES = [False]


def o_reversed(x):
    return x[::-1] if isinstance(x, AbsSeq) else builtins.reversed(x)


def o_list_of(x):
    return x if isinstance(x, AbsSeq) and x.generic is None else builtins.list(x)


def o_tuple_of(x):
    return x if isinstance(x, AbsSeq) and x.generic is None else builtins.tuple(x)


def seq_max(x):
    """largest element of an abstract sequence of numbers: the value at an unknown position, not below any other"""
    CTX = lib.ctx()
    CTX.prove("maximum of a nonempty sequence", terms.cmp_("<", 0, x.hi))
    w = Sc.fresh("at", "I", nonneg=True)
    CTX.assume(terms.cmp_("<=", 0, w) & terms.cmp_("<", w, x.hi))
    m = x.item(w)
    r = (m, x, w)
    CTX.maxima.append(r)
    instantiate_max(0)
    return m


def instantiate_max(j):
    """element j is not above the maximum, for every maximum taken so far of a sequence with an element j"""
    CTX = lib.ctx()
    for m, x, _ in CTX.maxima:
        if lin.entails(terms.cmp_("<=", 0, j) & terms.cmp_("<", j, x.hi)):
            CTX.assume(terms.cmp_("<=", x.item(Sc.of(j)), m))


def o_enumerate(x, start=0):
    if isinstance(x, AbsSeq):
        s = Sc.of(start)
        r = AbsSeq(x.hi, lambda i: (i + s, x.item(i)))
        r.generic = x.generic
        return r
    return builtins.enumerate(x, int(start))


def o_zip(*xs, **k):
    if any(isinstance(x, (AbsSeq, SymRange)) for x in xs):
        ys = [AbsSeq(x.hi - x.lo, lambda i, x=x: x.lo + i) if isinstance(x, SymRange) else x for x in xs]
        if not all(isinstance(x, AbsSeq) for x in ys) or not all(_same(y.hi, ys[0].hi) for y in ys):
            raise Unsupported("zip of an abstract sequence")
        r = AbsSeq(ys[0].hi, lambda i: tuple(y.item(i) for y in ys))
        gs = [y.generic for y in ys]
        r.generic = gs[0] if all(g is gs[0] for g in gs) else None
        return r
    return builtins.zip(*xs, **k)


class AbsDict:
    """dictionary {key(g): g for g in 0..n} with pairwise distinct keys"""

    def __init__(self, index_of):
        self.index_of = index_of

    def __getitem__(self, k):
        return self.index_of(k)

    get = __getitem__


def o_dict(*a, **k):
    if len(a) == 1 and isinstance(a[0], list) and len(a[0]) == 1 and isinstance(a[0][0], tuple) and hasattr(a[0][0][0], "abstract_key"):
        key, val = a[0][0]
        return AbsDict(key.abstract_key(val))
    return builtins.dict(*a, **k)


def o_list(x=()):
    return SymList(x)


def o_len(x):
    if isinstance(x, (lin.Arr, lin.PArr)):
        return x.shape[0]
    if isinstance(x, SymList) and x.n is not None:
        return x.length()
    if isinstance(x, AbsSeq):
        return x.hi
    return builtins.len(x)


LOOP_CONTRACTS = []
LOOP_OBJECTS = []     # callables(key, kind, iterable, locals) -> contract object or None


class NativeLoop:
    mode = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


class Unknown:
    """value of a local the loop contract says nothing about: any use is outside the subset"""

    def __init__(self, why="a local the loop contract does not describe"):
        object.__setattr__(self, "why", why)

    def _no(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, "why"))
    __getattr__ = __setattr__ = __call__ = __iter__ = __len__ = __bool__ = __getitem__ = __setitem__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
    __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = __pow__ = __rpow__ = __matmul__ = __rmatmul__ = _no
    __neg__ = __pos__ = __abs__ = __invert__ = __and__ = __rand__ = __or__ = __ror__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __hash__ = __int__ = __float__ = __index__ = __contains__ = _no


UNDEF = Unknown("local without a value at the head of a loop")


def _integer(v):
    return isinstance(v, int) and not isinstance(v, bool) or isinstance(v, Sc) and v.is_int()


def _same(x, y):
    d = Sc.of(x) - Sc.of(y)
    return not d.p or lin.entails(terms.cmp_("==", d, 0))


def _same_value(x, y):
    if x is y:
        return True
    if terms._scalarish(x) and terms._scalarish(y):
        return bool(_same(x, y))
    if isinstance(x, lin.Arr) and isinstance(y, lin.Arr):
        try:
            return (x - y).is_zero()
        except (lin.ShapeError, terms.Unsupported):
            return False
    if isinstance(x, lin.PArr) and isinstance(y, lin.PArr):
        from . import lib
        return lin.same(x.n, y.n) and not lib.generic_element(x - y).p
    return False


class Tracked:
    """loop contract that only follows quantities: each is a function of the iteration, optionally with `step`"""

    def __init__(self, span, *fs):
        self.span, self.tracked = span, fs

    def check(self, loc, i, lab):
        pass

    def havoc(self, loc, i):
        return {}


class Quantity:
    def __init__(self, f, step=None):
        self.f = f
        if step is not None:
            self.step = step

    def __call__(self, i):
        return self.f(i)


class CutLoop:
    """common part of the loops cut by a contract: what becomes of the locals the body assigns"""
    mode = True
    counters = None
    followed = None
    shift = 0

    def follows(self, loc, names, st):
        """locals that hold, on entry, a quantity of the contract which evolves with the iterations (`tracked`); that
        they keep holding it is checked when the body closes"""
        fs = getattr(self.con, "tracked", ())
        out = {}
        for n in names:
            if n in st or n in self.counters or n not in loc:
                continue
            for f in fs:
                if _same_value(loc[n], f(self.start + self.shift)):
                    out[n] = f
                    break
        return out

    def state(self, loc, names, st, i):
        """locals at the head of iteration i: given by the contract; else integers count iterations (checked when the
        body closes), containers keep their identity (the contract havocs their contents), the rest is unknown"""
        out = []
        if self.counters is None:
            self.counters = {n: loc[n] for n in names if n not in st and n in loc and _integer(loc[n])}
            if getattr(self.con, "numbers", False):
                # the contract's quantities take precedence over counting iterations
                for n in list(self.counters):
                    if any(_same_value(loc[n], f(self.start + self.shift)) for f in self.con.tracked):
                        del self.counters[n]
        lo = self.start
        if self.followed is None:
            self.followed = self.follows(loc, names, st) if i is not None else {}
        for n in names:
            if n in st:
                out.append(st[n])
            elif n in self.followed:
                out.append(self.followed[n](Sc.of(i) + self.shift))
            elif n in self.counters and i is not None:
                out.append(self.counters[n] + (Sc.of(i) - lo))
            elif n not in loc or isinstance(loc[n], Unknown):
                out.append(UNDEF)
            elif isinstance(loc[n], (SymList, dict)) or getattr(loc[n], "abstract_state", False):
                out.append(loc[n])
            elif loc[n] is None:
                raise Unsupported("local %s is not described by the loop contract" % n)
            else:
                out.append(Unknown("local %s is not described by the loop contract" % n))
        return tuple(out)

    def closed(self, loc, i):
        for n, c0 in self.counters.items():
            v = loc.get(n)
            if not _integer(v) or not _same(v, c0 + (Sc.of(i) + 1 - self.start)):
                raise Unsupported("integer local %s does not count iterations" % n)
        for n, f in self.followed.items():
            # a quantity may say how it evolves in one iteration (its definition) instead of its next value
            i1 = Sc.of(i) + self.shift
            want = f.step(i1) if hasattr(f, "step") else f(i1 + 1)
            if n not in loc or not _same_value(loc[n], want):
                raise Unsupported("local %s is not described by the loop contract" % n)
            from .explore import CTX
            CTX.prove_eq("loop carries its quantity to the next iteration", loc[n], want)


class ForLoop(CutLoop):
    """loop cut by a contract: inv checked on entry, havoced, one symbolic iteration or exit"""

    def __init__(self, con, it, loc):
        self.con, self.it, self.loc = con, it, loc
        self.done = False
        self.start = it.lo
        # a contract that names its span counts iterations from span[0], whatever the code counts from
        span = getattr(con, "span", None)
        self.shift = Sc.of(span[0]) - Sc.of(it.lo) if span else 0

    def __iter__(self):
        from .explore import CTX
        lo, hi = self.it.lo, self.it.hi
        self.con.check(self.loc, lo + self.shift, "entry")
        if CTX.choose("loop"):
            i = Sc.fresh("iter", "I")
            CTX.assume(terms.cmp_("<=", lo, i))
            CTX.assume(terms.cmp_("<", i, hi))
            self.i = i
            yield self.it.item(i) if hasattr(self.it, "item") else i
            raise Unsupported("loop body did not close")
        else:
            self.done = True
            CTX.assume(terms.cmp_("<=", lo, hi), None)
            return

    def enter(self, loc, names):
        self.con.names = names
        return self.state(loc, names, self.con.havoc(loc, self.i + self.shift), self.i)

    def close(self, loc):
        from .explore import PathEnd, CTX
        self.closed(loc, self.i)
        self.con.check(loc, self.i + 1 + self.shift, "preserved")
        CTX.cover("loop-body")
        raise PathEnd()

    def leave(self, loc, names):
        if not self.done:
            return tuple(loc.get(n, UNDEF) for n in names)
        self.con.names = names
        return self.state(loc, names, self.con.havoc(loc, self.it.hi + self.shift), self.it.hi)


class CountWhile(CutLoop):
    """while loop cut by a contract for `for i in lo..hi`: the loop is shown to run exactly hi-lo times"""

    def __init__(self, con, loc):
        self.con = con
        self.start, self.hi = Sc.of(con.span[0]), Sc.of(con.span[1])
        self.entered = False

    def enter(self, loc, names):
        from .explore import CTX
        if self.entered:
            raise Unsupported("while loop body did not close")
        self.entered = True
        self.con.check(loc, self.start, "entry")
        CTX.assume(terms.cmp_("<=", self.start, self.hi), None)
        self.inside = CTX.choose("loop")
        if self.inside:
            self.i = Sc.fresh("iter", "I")
            CTX.assume(terms.cmp_("<=", self.start, self.i))
            CTX.assume(terms.cmp_("<", self.i, self.hi))
        else:
            self.i = self.hi
        return self.state(loc, names, self.con.havoc(loc, self.i), self.i)

    def test(self, c):
        r = bool(B.of(c)) if isinstance(c, (B, Sc)) else bool(c)
        if r != self.inside:
            raise Unsupported("while loop not shown to run as often as its contract says")
        return r

    def close(self, loc):
        from .explore import PathEnd, CTX
        self.closed(loc, self.i)
        self.con.check(loc, self.i + 1, "preserved")
        CTX.cover("loop-body")
        raise PathEnd()


class WhileLoop(CutLoop):
    start = 0

    def __init__(self, con, loc):
        self.con = con
        self.entered = False

    def enter(self, loc, names):
        if self.entered:
            raise Unsupported("while loop body did not close")
        self.entered = True
        self.con.names = names
        self.con.check(loc, None, "entry")
        return self.state(loc, names, self.con.havoc(loc, None), None)

    def test(self, c):
        return bool(B.of(c)) if isinstance(c, (B, Sc)) else bool(c)

    def close(self, loc):
        from .explore import PathEnd, CTX
        self.con.check(loc, None, "preserved")
        CTX.cover("loop-body")
        raise PathEnd()


class NativeWhile:
    mode = False

    def __init__(self):
        self.n = 0

    def test(self, c):
        self.n += 1
        if self.n > 4000:
            raise Unsupported("while loop not bounded")
        r = bool(B.of(c)) if isinstance(c, (B, Sc)) else bool(c)
        if r and isinstance(c, (B, Sc)) and c.const() is None and self.n > lib.UNROLL[0]:
            raise Unsupported("while loop not bounded by %d iterations" % lib.UNROLL[0])
        return r


def o_for(key, it, loc):
    for f in LOOP_OBJECTS:
        return f(key, "for", it, loc)
    for f in LOOP_CONTRACTS:
        con = f(key, "for", it, loc)
        if con is not None:
            return ForLoop(con, it, loc)
    return NativeLoop(it)


def o_while(key, loc):
    for f in LOOP_OBJECTS:
        return f(key, "while", None, loc)
    for f in LOOP_CONTRACTS:
        con = f(key, "while", None, loc)
        if con is not None:
            return CountWhile(con, loc) if getattr(con, "span", None) else WhileLoop(con, loc)
    return NativeWhile()


def o_div(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return Sc.of(a) / Sc.of(b)
    return a / b


def o_float(x=0):
    if isinstance(x, (Sc, B)):
        return Sc.of(x)
    if isinstance(x, (lin.Arr, lin.EArr)):
        raise Unsupported("float of array")
    return Sc.of(builtins.float(x))


def o_int(x=0):
    if isinstance(x, Sc):
        if x.is_const():
            import math
            return int(math.trunc(x.const()))
        if x.is_int():
            return x
        if lin.entails(terms.cmp_("<=", 0, x)):
            return terms.floor_(x)
        raise Unsupported("int() of a symbolic real")
    if isinstance(x, B):
        return x.to_sc()
    return builtins.int(x)


def o_q(s):
    return Sc.lit(s)


def o_c(s):
    return Sc.lit(s) * terms.I_


class World:
    """one loading of the package under the symbolic libraries"""

    def __init__(self, extra=None):
        self.mods = {}
        self.libs = lib.build()
        if extra:
            self.libs.update(extra)
        self.sources = {}
        self.failed = {}

    def builtins(self):
        d = dict(vars(builtins))
        d.update(len=o_len, range=o_range, float=o_float, int=o_int, print=lambda *a, **k: None,
                 abs=lib.abs_any, __import__=self.imp, _ovc_q=o_q, _ovc_c=o_c, _ovc_div=o_div,
                 _ovc_for=o_for, _ovc_while=o_while, _ovc_locals=locals, _ovc_fmt=lambda s: s, _ovc_list=o_list,
                 min=o_min, max=o_max, bool=o_bool, round=o_round,
                 _ovc_enumerate=o_enumerate, _ovc_zip=o_zip, _ovc_dict=o_dict,
                 _ovc_comp=o_comp, _ovc_reversed=o_reversed, _ovc_list_of=o_list_of, _ovc_tuple_of=o_tuple_of)
        return d

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            parts = pkg.split(".")
            base = ".".join(parts[:len(parts) - level + 1])
            name = base + ("." + name if name else "")
        if name == "ormatex_py" or name.startswith("ormatex_py."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + "." + f))
                        except ImportError:
                            pass
                return m
            return self.load("ormatex_py")
        root = name.split(".")[0]
        if name in self.libs:
            if fromlist:
                return self.libs[name]
            return self.libs.get(root, self.libs[name])
        if root in self.libs:
            m = lib.Mod(name)
            self.libs[name] = m
            return m if fromlist else self.libs[root]
        if root in ("functools", "collections", "abc", "dataclasses", "logging", "typing", "copy", "itertools",
                    "operator", "sys", "argparse", "enum", "inspect", "types", "__future__", "contextlib", "numbers"):
            return builtins.__import__(name, globals, locals, fromlist, 0)
        m = lib.Mod(name)
        self.libs[name] = m
        self.libs.setdefault(root, m)
        return m

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(REPO, *name.split("."))
        if os.path.isdir(path):
            fn = os.path.join(path, "__init__.py")
        else:
            fn = path + ".py"
        if not os.path.exists(fn):
            raise ImportError("no module " + name)
        src = open(fn).read()
        self.sources[name] = src
        m = types.ModuleType(name)
        m.__file__ = fn
        m.__package__ = name if fn.endswith("__init__.py") else name.rpartition(".")[0]
        if fn.endswith("__init__.py"):
            m.__path__ = [path]
        self.mods[name] = m
        sys.modules[name] = m
        if "." in name:
            parent = self.load(name.rpartition(".")[0])
            setattr(parent, name.rpartition(".")[2], m)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src)
        tree = Tr(name).visit(tree)
        ast.fix_missing_locations(tree)
        m.__dict__["__builtins__"] = self.builtins()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                code = compile(tree, fn, "exec")
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        return m

    # ---- contracts at call sites
    def replace(self, orig, repl):
        """substitute a contract for a function everywhere it is bound"""
        n = 0
        for m in list(self.mods.values()):
            for k, v in list(vars(m).items()):
                if v is orig:
                    setattr(m, k, repl)
                    n += 1
                elif isinstance(v, dict) and not k.startswith("__"):
                    for kk, vv in list(v.items()):
                        if vv is orig:
                            v[kk] = repl
        return n


def o_min(*a, **k):
    if len(a) == 1:
        a = list(a[0])
    if k or not any(isinstance(x, (Sc, B)) for x in a):
        return builtins.min(*a, **k) if len(a) > 1 else builtins.min(a, **k)
    r = a[0]
    for x in a[1:]:
        r = terms.min_(r, x)
    return r


def o_max(*a, **k):
    if len(a) == 1 and isinstance(a[0], AbsSeq):
        if k or a[0].generic is not None:
            raise Unsupported("max of an abstract sequence")
        return seq_max(a[0])
    if len(a) == 1:
        a = list(a[0])
    if k or not any(isinstance(x, (Sc, B)) for x in a):
        return builtins.max(*a, **k) if len(a) > 1 else builtins.max(a, **k)
    r = a[0]
    for x in a[1:]:
        r = terms.max_(r, x)
    return r


def o_bool(x=False):
    return B.of(x) if isinstance(x, (Sc, B)) else builtins.bool(x)


def o_round(x, n=None):
    if isinstance(x, Sc):
        raise Unsupported("round of symbolic")
    return builtins.round(x, n) if n is not None else builtins.round(x)
