"""Abstract interpreter over the monomorphic MIR dumped by the driver.

States map memory locations to abstract values; integers are polynomials over interned terms
(num.py) constrained by a conjunction of linear inequalities.  Paths are partitioned by control
flow and joined at loop heads (one abstract state per loop head and per shape of the memory);
loops are iterated to a fixpoint with widening."""
import collections
import heapq, json, re, sys, time
from dataclasses import dataclass
from typing import Any
import num as N
from num import P, Facts, add, sub, mul, scale, div, rem

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ values
@dataclass(frozen=True, slots=True)
class Adt:
    v: int
    f: tuple
    ty: Any = None


@dataclass(frozen=True, slots=True)
class Arr:
    e: tuple


@dataclass(frozen=True, slots=True)
class Ptr:
    root: Any
    path: tuple


@dataclass(frozen=True, slots=True)
class Sl:
    p: Ptr
    start: Any
    ln: Any
    dead: Any = None


@dataclass(frozen=True, slots=True)
class Str:
    toks: tuple  # tokens
    sl: Any = None  # or a byte slice


@dataclass(frozen=True, slots=True)
class NS:
    """modelled NominalString: front ++ base ++ back"""

    front: tuple
    base: Any
    back: tuple
    rev: int = 0  # when it was created


@dataclass(frozen=True, slots=True)
class HS:
    """heap String"""

    toks: tuple
    ident: Any = None


@dataclass(frozen=True, slots=True)
class SymE:
    name: str
    ty: int


@dataclass(frozen=True, slots=True)
class Op:
    name: Any


@dataclass(frozen=True, slots=True)
class FnV:
    ty: int


@dataclass(frozen=True, slots=True)
class Cond:
    op: str  # ge eq ne and or
    a: Any
    b: Any = None


@dataclass(frozen=True, slots=True)
class ItSl:
    sl: Sl
    i: Any
    j: Any


@dataclass(frozen=True, slots=True)
class ItVal:
    e: tuple
    i: int
    j: int


def symbolic(es):
    """whether the elements of an iterator vary"""
    if len(es) > 16:
        return False
    for x in es:
        if isinstance(x, (P, Cond)):
            return True
        if isinstance(x, (Adt, Arr)) and symbolic(x.f if isinstance(x, Adt) else x.e):
            return True
        if isinstance(x, tuple) and symbolic(x):
            return True
    return False


@dataclass(frozen=True, slots=True)
class ItZip:
    a: Any
    b: Any


@dataclass(frozen=True, slots=True)
class ItMap:
    """copied, rev, enum (n: the count) of an iterator"""

    kind: str
    it: Any
    n: Any = 0


@dataclass(frozen=True, slots=True)
class ItChars:
    toks: tuple
    i: int
    j: int


@dataclass(frozen=True, slots=True)
class Uninit:
    pass


GO = Op("go")  # a model has set up the next step itself
STOP = Op("stop")
UNINIT = Uninit()
UNIT = Adt(0, ())


class Undecided(Exception):
    """the analysis has no model for a construct"""


class Split(Exception):
    """options: list of functions facts -> bool (feasible)"""

    def __init__(self, options):
        self.options = options


class Panic(Exception):
    def __init__(self, msg):
        self.msg = msg


class Infeasible(Exception):
    pass


class Mismatch(Exception):
    """the behaviour differs from the specification"""

    def __init__(self, msg):
        self.msg = msg


# ------------------------------------------------------------------ conditions
def c_ge(p):
    return p >= 0 if isinstance(p, int) else Cond("ge", p)


def c_eq(a, b):
    if a is b:
        return True
    d = sub(a, b)
    return d == 0 if isinstance(d, int) else Cond("eq", d)


def c_not(c):
    if isinstance(c, bool):
        return not c
    if c.op == "ge":
        return c_ge(sub(-1, c.a))
    if c.op == "eq":
        return Cond("ne", c.a)
    if c.op == "ne":
        return Cond("eq", c.a)
    if c.op == "and":
        return c_or(c_not(c.a), c_not(c.b))
    if c.op == "or":
        return c_and(c_not(c.a), c_not(c.b))
    raise Undecided("not")


def c_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return Cond("and", a, b)


def c_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return Cond("or", a, b)


def boolsym(name):
    return Cond("ge", sub(N.sym(name, 0, 1), 1))


def c_eval(c, F):
    if isinstance(c, bool):
        return c
    if c.op == "ge":
        if F.ge(c.a):
            return True
        if F.ge(sub(-1, c.a)):
            return False
        return None
    if c.op in ("eq", "ne"):
        if F.neq(c.a):
            return c.op == "ne"
        if F.eq(c.a):
            return c.op == "eq"
        return None
    a = c_eval(c.a, F)
    b = c_eval(c.b, F)
    if c.op == "and":
        if a is False or b is False:
            return False
        if a is True and b is True:
            return True
        return None
    if a is True or b is True:
        return True
    if a is False and b is False:
        return False
    return None


def c_assume(c, F):
    """add c to F; False if contradictory"""
    if isinstance(c, bool):
        return c
    if c.op == "ge":
        return F.add_ge(c.a)
    if c.op == "eq":
        return F.add_eq(c.a)
    if c.op == "ne":
        return F.add_ne(c.a)
    if c.op == "and":
        return c_assume(c.a, F) and c_assume(c.b, F)
    raise Undecided("assume or")


def has_ns(v):
    if isinstance(v, NS):
        return True
    if isinstance(v, Adt):
        return any(has_ns(x) for x in v.f)
    return False


class Dec:
    """decides conditions under the facts of a state; splits the state when it cannot"""

    def __init__(self, F):
        self.F = F

    def __call__(self, c):
        r = c_eval(c, self.F)
        if r is not None:
            return r
        if c.op in ("and", "or"):
            # split on the first undecided component
            for x in (c.a, c.b):
                if c_eval(x, self.F) is None:
                    return self.__call__(x) if False else self.split(x)
        return self.split(c)

    def split(self, c):
        if c.op in ("and", "or"):
            for x in (c.a, c.b):
                if c_eval(x, self.F) is None:
                    return self.split(x)
        else:
            p = N.canon(self.F, c.a)
            if p != c.a:
                r = c_eval(Cond(c.op, p), self.F)
                if r is not None:
                    return r
        raise Split([lambda f, c=c: c_assume(c, f), lambda f, c=c: c_assume(c_not(c), f)])

    def ge(self, a, b=0):
        return self(c_ge(sub(a, b)))

    def gt(self, a, b=0):
        return self(c_ge(sub(sub(a, b), 1)))

    def lt(self, a, b):
        return self(c_ge(sub(sub(b, a), 1)))

    def eq(self, a, b=0):
        return self(c_eq(a, b))


class XFacts(Facts):
    """numeric facts plus the variants chosen for symbolic enums"""

    __slots__ = ("en",)

    def __init__(self):
        Facts.__init__(self)
        self.en = {}

    def add_ge(self, p):
        if not Facts.add_ge(self, p):
            return False
        if isinstance(p, P) and len(p.t) == 1 and len(p.t[0][0]) == 1:
            a = N.ATOMS[p.t[0][0][0]]
            if a.key[0] == "sel" and all(type(x) is int for x in a.key[1]):
                return self.chosen(a)
        return True

    def chosen(self, a):
        """what the value of an element tells of its index"""
        lo, hi = self.bounds(P((((a.id,), 1),), 0))
        i = a.key[2]
        il, ih = self.bounds(i)
        il, ih = max(il or 0, 0), len(a.key[1]) - 1 if ih is None else min(ih, len(a.key[1]) - 1)
        ok = [k for k in range(il, ih + 1) if (lo is None or a.key[1][k] >= lo) and (hi is None or a.key[1][k] <= hi)]
        if not ok:
            return False
        if ok[0] > il and not self.add_ge(sub(i, ok[0])):
            return False
        if ok[-1] < ih and not self.add_ge(sub(ok[-1], i)):
            return False
        if len(ok) <= 16 and ok[-1] - ok[0] <= 16:
            for k in range(ok[0], ok[-1]):
                if k not in ok and not self.add_ne(sub(i, k)):
                    return False
        return True

    def copy(self):
        f = XFacts()
        f.lb = dict(self.lb)
        f.ne = set(self.ne)
        f.en = dict(self.en)
        return f


# ------------------------------------------------------------------ program
class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.bodies = {b["key"]: b for b in d["bodies"]}
        self.entries = {}
        self.entry_keys = {}
        for nm, k in d["entries"]:
            self.entries[k] = k
        self.consts = []
        self.constmap = {}
        self._prep = {}
        self.kcache = {}

    def ty(self, i):
        return self.types[i]

    def value_of_const(self, j):
        k = j["k"]
        if k == "int":
            t = self.types[j["t"]]
            if t["k"] == "bool":
                return j["v"] != "0"
            return int(j["v"])
        if k == "tuple":
            return Adt(0, tuple(self.value_of_const(x) for x in j["f"]))
        if k == "array":
            return Arr(tuple(self.value_of_const(x) for x in j["f"]))
        if k == "adt":
            return Adt(j["v"], tuple(self.value_of_const(x) for x in j["f"]), j["t"])
        if k == "str":
            return Str(tuple(("c", ord(c)) for c in j["v"]))
        if k == "ref":
            v = j["v"]
            if v["k"] == "str":
                return self.value_of_const(v)
            val = self.value_of_const(v)
            root = self.const_root(val)
            if self.types[v["t"]]["k"] == "slice":
                return Sl(Ptr(root, ()), 0, len(val.e))
            return Ptr(root, ())
        if k == "fn":
            return FnV(j["t"])
        if k == "closure0":
            return Adt(0, (), j["t"])
        if k == "uninit":
            return UNINIT
        if k == "rawint":
            return int(j["v"])
        return Op(("const", j.get("d", ""), j["t"]))

    def const_root(self, val):
        r = self.constmap.get(val)
        if r is None:
            r = ("k", len(self.consts))
            self.consts.append(val)
            self.constmap[val] = r
        return r

    def prep(self, key):
        """control-flow facts of a body: loop heads and live locals per block"""
        r = self._prep.get(key)
        if r is not None:
            return r
        b = self.bodies[key]
        blocks = b["blocks"]
        succ = []
        for bl in blocks:
            t = bl["t"]
            if t[0] == "goto":
                s = [t[1]]
            elif t[0] == "switch":
                s = [x[1] for x in t[2]] + [t[3]]
            elif t[0] == "drop":
                s = [t[2]]
            elif t[0] == "call":
                s = [t[4]] if t[4] is not None else []
            elif t[0] == "assert":
                s = [t[4]]
            else:
                s = []
            succ.append(s)
        heads = set()
        color = {}
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color.get(v) is None:
                    color[v] = 1
                    stack.append((v, iter(succ[v])))
                    break
                elif color[v] == 1:
                    heads.add(v)
            else:
                color[u] = 2
                stack.pop()
        # liveness of locals that never have their address taken
        addr = set()

        def walk_place(p, acc):
            acc.add(p[0])
            for e in p[1]:
                if e[0] == "i":
                    acc.add(e[1])

        def ops(o, acc):
            if o[0] in ("c", "m"):
                walk_place(o[1], acc)

        def rv(r, acc):
            k = r[0]
            if k == "use" or k == "repeat":
                ops(r[1], acc)
            elif k in ("ref",):
                walk_place(r[1], acc)
                if not any(e[0] == "*" for e in r[1][1]):
                    addr.add(r[1][0])
            elif k == "cast":
                ops(r[2], acc)
            elif k == "bin":
                ops(r[2], acc)
                ops(r[3], acc)
            elif k == "un":
                ops(r[2], acc)
            elif k == "discr":
                walk_place(r[1], acc)
            elif k == "agg":
                for x in r[2]:
                    ops(x, acc)

        use, deff = [], []
        for bl in blocks:
            u, d = set(), set()

            def see(acc):
                for x in acc:
                    if x not in d:
                        u.add(x)

            for st in bl["s"]:
                if st[0] == "=":
                    acc = set()
                    rv(st[2], acc)
                    if st[1][1]:
                        walk_place(st[1], acc)
                    see(acc)
                    if not st[1][1]:
                        d.add(st[1][0])
                elif st[0] == "dead":
                    d.add(st[1])
                elif st[0] == "sd":
                    acc = set()
                    walk_place(st[1], acc)
                    see(acc)
                elif st[0] == "assume":
                    acc = set()
                    ops(st[1], acc)
                    see(acc)
                elif st[0] == "copyno":
                    acc = set()
                    for o in st[1:4]:
                        ops(o, acc)
                    see(acc)
            t = bl["t"]
            acc = set()
            if t[0] == "switch":
                ops(t[1], acc)
            elif t[0] == "call":
                for o in t[2]:
                    ops(o, acc)
                if t[1].get("op"):
                    ops(t[1]["op"], acc)
                if t[3][1]:
                    walk_place(t[3], acc)
            elif t[0] == "assert":
                ops(t[1], acc)
            elif t[0] == "ret":
                acc.add(0)
            see(acc)
            if t[0] == "call" and not t[3][1]:
                d.add(t[3][0])
            use.append(u)
            deff.append(d)
        live = [set() for _ in blocks]
        changed = True
        while changed:
            changed = False
            for i in range(len(blocks) - 1, -1, -1):
                out = set()
                for sx in succ[i]:
                    out |= live[sx]
                nl = use[i] | (out - deff[i])
                if nl != live[i]:
                    live[i] = nl
                    changed = True
        # reverse postorder
        post, seen, stack = [], {0}, [(0, iter(succ[0]))]
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    stack.append((v, iter(succ[v])))
                    break
            else:
                post.append(u)
                stack.pop()
        rpo = {u: i for i, u in enumerate(reversed(post))}
        r = (heads, [l | addr for l in live], succ, rpo)
        self._prep[key] = r
        return r


class Frame:
    __slots__ = ("body", "bb", "dest", "ret", "py", "key", "sig")

    def __init__(self, body, bb, dest, ret, py=None):
        self.body = body
        self.bb = bb
        self.dest = dest  # Ptr location for the return value, in the caller
        self.ret = ret  # block of the caller to continue at
        self.py = py  # (handler name, data) for model frames
        self.sig = None  # the arguments, in deep recursion

    def with_(self, **kw):
        f = Frame(self.body, self.bb, self.dest, self.ret, self.py)
        f.sig = self.sig
        for k, v in kw.items():
            setattr(f, k, v)
        return f


class State:
    __slots__ = ("mem", "F", "frames", "ghost", "node", "ver", "ip", "trace", "ev", "mp")

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.F = self.F.copy()
        s.frames = list(self.frames)
        s.ghost = self.ghost
        s.node = self.node
        s.ver = self.ver
        s.ip = self.ip
        s.trace = self.trace
        s.ev = self.ev
        s.mp = self.mp
        return s


def part(v):
    """what of a value keeps states apart at a loop head: a constant, or the input that it is"""
    if isinstance(v, int):
        return v
    if isinstance(v, P) and v.k == 0 and len(v.t) == 1 and v.t[0][1] == 1 and len(v.t[0][0]) == 1 and N.ATOMS[v.t[0][0][0]].key[0] == "sym":
        return v
    return "*"


class Node:
    """a loop head with one memory shape"""

    __slots__ = ("id", "key", "state", "ver", "leaves", "gen", "joins", "edges", "name")


class Result:
    def __init__(self):
        self.returns = []  # (state, value)
        self.panics = []  # (msg, where, state)
        self.mismatches = []  # (msg, where, state)
        self.undecided = []
        self.nodes = []
        self.edges = []
        self.steps = 0
        self.functions = set()
        self.calls = 0
        self.splits = 0
        self.time = 0.0
        self.alloc = set()  # functions of the crate alloc that are called


class Engine:
    MAXPART = 1500
    MAXSTEPS = 20_000_000
    MAXDEPTH = 100

    def __init__(self, prog, models, contracts=None, spec=None, squash=False, oom=False):
        self.prog = prog
        self.models = models  # function rpath -> handler or None
        self.contracts = contracts or {}
        self.spec = spec
        self.squash = squash
        self.oom = oom  # pushes can fail
        self.res = Result()
        self.work = []
        self.seq = 0
        self.moved = []
        self.folded = set()
        self.loops = {}
        self.opts = {}

    # -------------------------------------------------------------- symbolic inputs
    def intrange(self, t):
        b = t["bits"]
        if t["signed"]:
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1

    def symval(self, st, ty, name):
        t = self.prog.types[ty]
        k = t["k"]
        if k == "int":
            lo, hi = self.intrange(t)
            return N.sym(name, lo, hi)
        if k == "bool":
            return boolsym(name)
        if k == "char":
            return N.sym(name, 0, 0x10FFFF)
        if k == "tuple":
            return Adt(0, tuple(self.symval(st, x, "%s.%d" % (name, i)) for i, x in enumerate(t["f"])))
        if k == "array":
            return Arr(tuple(self.symval(st, t["e"], "%s[%d]" % (name, i)) for i in range(t["len"])))
        if k in ("ref", "ptr"):
            p = self.prog.types[t["p"]]
            if p["k"] == "str":
                return Str((("o", name),))
            if p["k"] == "slice":
                return Op(("slice", name))
            if p["k"] == "dyn":
                return Op(("dyn", name))
            root = ("sym", name)
            if root not in st.mem:
                st.mem[root] = self.symval(st, t["p"], name)
            return Ptr(root, ())
        if k == "adt":
            if t["path"].endswith("NominalString") and "nominals" in t["path"]:
                h = self.opts.get("symns")
                if h:
                    return h(self, st, ty, name)
                return NS((), ("o", name), ())
            if t["path"] == "alloc::string::String":
                return HS((("o", name),), name)
            if t["path"] in ("alloc::boxed::Box", "alloc::rc::Rc", "alloc::sync::Arc"):
                return Op(("box", name))
            if t["path"].startswith("core::fmt::Formatter"):
                return Op(("fmt", name))
            if t["adt"] == "enum":
                if len(t["v"]) == 0:
                    return Op(("never", name))
                return SymE(name, ty)
            if t["adt"] == "union":
                return UNINIT
            return Adt(0, tuple(self.symval(st, x[1], "%s.%s" % (name, x[0])) for x in t["v"][0]["f"]), ty)
        if k == "closure":
            return Adt(0, tuple(self.symval(st, x, "%s.%d" % (name, i)) for i, x in enumerate(t["f"])), ty)
        if k == "dyn":
            return Op(("dyn", name))
        return Op(("sym", name, ty))

    def enum_variant(self, st, e, v):
        """the value of a symbolic enum known to be variant v"""
        t = self.prog.types[e.ty]
        vs = t["v"][v]
        return Adt(v, tuple(self.symval(st, x[1], "%s.%s.%s" % (e.name, vs["n"], x[0])) for x in vs["f"]), e.ty)

    def resolve_enum(self, st, e):
        v = st.F.en.get(e.name)
        if v is None:
            t = self.prog.types[e.ty]
            opts = []
            for i in range(len(t["v"])):

                def f(F, i=i):
                    F.en[e.name] = i
                    return True

                opts.append(f)
            raise Split(opts)
        return self.enum_variant(st, e, v)

    # -------------------------------------------------------------- memory
    def get_root(self, st, root):
        if root[0] == "k":
            return self.prog.consts[root[1]]
        v = st.mem.get(root)
        if v is None:
            if root[0] == "hc":
                raise Undecided("dangling")
            if root[0] == "strb":
                raise Undecided("bytes of symbolic str")
            return UNINIT
        return v

    def load(self, st, loc):
        if isinstance(loc, (Str, Sl, Op)):
            return loc
        v = self.get_root(st, loc.root)
        for e in loc.path:
            v = self.project(st, v, e)
        return v

    def project(self, st, v, e):
        if isinstance(v, SymE):
            v = self.resolve_enum(st, v)
        if e[0] == "f":
            if isinstance(v, Adt):
                if e[1] >= len(v.f):
                    raise Undecided("field %d of %r" % (e[1], v))
                return v.f[e[1]]
            if isinstance(v, NS):
                return v
            if v is UNINIT:
                return UNINIT
            if isinstance(v, Op):
                return Op((v.name, e[1]))
            # transparent wrappers around a value (MaybeUninit, ManuallyDrop, NonNull)
            return v
        if e[0] == "i":
            if not isinstance(v, Arr):
                raise Undecided("index into %r" % (v,))
            i = e[1]
            if isinstance(i, int):
                if not 0 <= i < len(v.e):
                    raise Infeasible()
                return v.e[i]
            return self.select(st, v.e, i)
        raise Undecided("projection %r" % (e,))

    def select(self, st, elems, i):
        """elems[i] for a symbolic i"""
        lo, hi = st.F.bounds(i)
        lo = max(lo or 0, 0)
        hi = len(elems) - 1 if hi is None else min(hi, len(elems) - 1)
        if lo > hi:
            raise Infeasible()
        sel = elems[lo : hi + 1]
        if all(x == sel[0] for x in sel):
            return sel[0]
        if lo == hi:
            return elems[lo]
        return self.select_val(st, elems, i, lo, hi)

    def select_val(self, st, elems, i, lo, hi):
        part = elems[lo : hi + 1]
        if all(isinstance(x, (int, P)) and not isinstance(x, bool) for x in part):
            los = [N.glob_bounds(x)[0] for x in part]
            his = [N.glob_bounds(x)[1] for x in part]
            l = None if None in los else min(los)
            h = None if None in his else max(his)
            key = ("sel", tuple(elems), i)
            a = N.BYKEY.get(key)
            if a is None:
                gl = [N.glob_bounds(x) for x in elems if isinstance(x, (int, P))]
                l = None if any(g[0] is None for g in gl) else min(g[0] for g in gl)
                h = None if any(g[1] is None for g in gl) else max(g[1] for g in gl)
                a = N.new_atom(key, l, h, "sel%d[%r]" % (len(elems), i))
            return P((((a.id,), 1),), 0)
        if all(isinstance(x, Adt) for x in part) and len({(x.v, len(x.f)) for x in part}) == 1:
            fs = []
            for k in range(len(part[0].f)):
                col = tuple(x.f[k] if isinstance(x, Adt) and len(x.f) > k else UNINIT for x in elems)
                if all(y == col[lo] for y in col[lo : hi + 1]):
                    fs.append(col[lo])
                else:
                    fs.append(self.select_val(st, col, i, lo, hi))
            return Adt(part[0].v, tuple(fs), part[0].ty)
        if all(isinstance(x, Str) and x.sl is None for x in part):
            return Str((("sel", tuple(x.toks if isinstance(x, Str) else () for x in elems), i),))
        # enumerate
        if hi - lo > 300:
            raise Undecided("symbolic index")
        # split in halves
        mid = (lo + hi) // 2
        c = c_ge(sub(mid, i))
        raise Split([lambda f: c_assume(c, f), lambda f: c_assume(c_not(c), f)])

    def store(self, st, loc, val):
        if isinstance(loc, (Str, Sl)):
            raise Undecided("store to unsized")
        if isinstance(loc, Op):
            return
        if loc.root[0] == "k":
            raise Undecided("store to constant")
        if not loc.path:
            st.mem[loc.root] = val
            return
        old = self.get_root(st, loc.root)
        st.mem[loc.root] = self.upd(st, old, loc.path, val, loc)

    def upd(self, st, v, path, val, loc):
        if not path:
            return val
        e = path[0]
        if isinstance(v, SymE):
            v = self.resolve_enum(st, v)
        if e[0] == "f":
            if isinstance(v, Adt):
                fs = list(v.f)
                while len(fs) <= e[1]:
                    fs.append(UNINIT)
                fs[e[1]] = self.upd(st, fs[e[1]], path[1:], val, loc)
                return Adt(v.v, tuple(fs), v.ty)
            if isinstance(v, NS):
                return self.upd(st, v, path[1:], val, loc)
            if v is UNINIT:
                fs = [UNINIT] * (e[1] + 1)
                fs[e[1]] = self.upd(st, UNINIT, path[1:], val, loc)
                return Adt(0, tuple(fs))
            return self.upd(st, v, path[1:], val, loc)
        if e[0] == "i":
            if not isinstance(v, Arr):
                raise Undecided("store index")
            i = e[1]
            if not isinstance(i, int):
                lo, hi = st.F.bounds(i)
                if lo is not None and lo == hi:
                    i = lo
                else:
                    lo = max(lo or 0, 0)
                    hi = min(hi if hi is not None else len(v.e) - 1, len(v.e) - 1)
                    if hi - lo > 300:
                        raise Undecided("store at symbolic index")
                    mid = (lo + hi) // 2
                    c = c_ge(sub(mid, i))
                    raise Split([lambda f: c_assume(c, f), lambda f: c_assume(c_not(c), f)])
            if not 0 <= i < len(v.e):
                raise Infeasible()
            es = list(v.e)
            es[i] = self.upd(st, es[i], path[1:], val, loc)
            return Arr(tuple(es))
        raise Undecided("store projection")

    # -------------------------------------------------------------- places and operands
    def place(self, st, pl):
        d = len(st.frames) - 1
        loc = Ptr((d, pl[0]), ())
        for e in pl[1]:
            k = e[0]
            if k == "*":
                v = self.load(st, loc)
                if isinstance(v, Adt) and len(v.f) == 1:
                    v = v.f[0]
                if isinstance(v, (Ptr, Sl, Str, Op)):
                    loc = v
                elif isinstance(v, HS):
                    loc = Str(v.toks)
                else:
                    raise Undecided("deref of %r" % (v,))
            elif k == "f":
                if isinstance(loc, Op):
                    loc = Op((loc.name, e[1]))
                else:
                    loc = Ptr(loc.root, loc.path + (("f", e[1]),))
            elif k == "d":
                pass
            elif k == "i":
                i = st.mem[(d, e[1])]
                loc = self.index(st, loc, i)
            elif k == "ci":
                if e[3]:
                    ln = loc.ln if isinstance(loc, Sl) else len(self.load(st, loc).e)
                    loc = self.index(st, loc, sub(ln, e[1]))
                else:
                    loc = self.index(st, loc, e[1])
            elif k == "ss":
                if isinstance(loc, Sl):
                    base, start, ln = loc.p, loc.start, loc.ln
                else:
                    base, start, ln = loc, 0, len(self.load(st, loc).e)
                end = sub(ln, e[2]) if e[3] else e[2]
                loc = Sl(base, add(start, e[1]), sub(end, e[1]))
            else:
                raise Undecided("place %r" % (e,))
        return loc

    def index(self, st, loc, i):
        if isinstance(loc, Sl):
            return Ptr(loc.p.root, loc.p.path + (("i", add(loc.start, i)),))
        if isinstance(loc, Ptr):
            return Ptr(loc.root, loc.path + (("i", i),))
        raise Undecided("index %r" % (loc,))

    def empty(self, ty):
        """has the type no values?"""
        t = self.prog.types[ty]
        return t["k"] == "never" or t["k"] == "adt" and t["adt"] == "enum" and not t["v"]

    def place_ty(self, st, pl):
        t = st.frames[-1].body["locals"][pl[0]]
        for e in pl[1]:
            k = e[0]
            tt = self.prog.types[t]
            if k == "*":
                t = tt.get("p", tt["args"][0] if tt.get("args") else t)
            elif k == "f":
                t = e[2]
            elif k in ("i", "ci"):
                t = tt["e"]
        return t

    def const(self, j):
        c = self.prog.kcache.get(id(j))
        if c is None:
            c = (self.prog.value_of_const(j), j)
            self.prog.kcache[id(j)] = c
        return c[0]

    def operand(self, st, o):
        if o[0] in ("c", "m"):
            pl = o[1]
            if not pl[1]:
                k = (len(st.frames) - 1, pl[0])
                v = st.mem.get(k, UNINIT)
                if o[0] == "m":
                    self.moved.append((k, ()))
                return v
            loc = self.place(st, pl)
            v = self.load(st, loc)
            if o[0] == "m" and isinstance(loc, Ptr) and not any(e[0] == "*" for e in pl[1]) and has_ns(v):
                self.moved.append((loc.root, loc.path))
            return v
        if o[0] == "k":
            return self.const(o[1])
        if o[0] == "rc":
            return o[1] == "OverflowChecks"
        raise Undecided("operand")

    def operand_ty(self, st, o):
        if o[0] in ("c", "m"):
            return self.place_ty(st, o[1])
        if o[0] == "k":
            return o[1]["t"]
        return None

    # -------------------------------------------------------------- arithmetic
    def as_int(self, st, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, P)):
            return v
        if isinstance(v, Cond):
            return int(Dec(st.F)(v))
        if isinstance(v, Adt) and len(v.f) == 1:
            return self.as_int(st, v.f[0])
        raise Undecided("int from %r" % (v,))

    def fit(self, st, v, t):
        """value v (mathematical) into integer type t, wrapping"""
        lo, hi = self.intrange(t)
        if isinstance(v, int):
            m = v & ((1 << t["bits"]) - 1)
            return m - (1 << t["bits"]) if t["signed"] and m > hi else m
        if st.F.ge(sub(v, lo)) and st.F.ge(sub(hi, v)):
            return v
        if not t["signed"] and st.F.ge(v):
            return rem(v, 1 << t["bits"], st.F)
        return P((((N.new_atom(("wrap", v, t["s"]), lo, hi, "wrap%r" % (v,)).id,), 1),), 0)

    def binop(self, st, op, a, b, dty):
        F = st.F
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, (bool, Cond)) or isinstance(b, (bool, Cond)):
                if op in ("Eq", "Ne"):
                    r = None
                    if isinstance(b, bool):
                        r = a if b else c_not(a)
                    elif isinstance(a, bool):
                        r = b if a else c_not(b)
                    else:
                        r = Dec(F)(b)
                        r = a if r else c_not(a)
                    return r if op == "Eq" else c_not(r)
                a, b = self.as_int(st, a), self.as_int(st, b)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if op in ("Eq", "Ne"):
                    return (a == b) == (op == "Eq")
                raise Undecided("pointer order")
            a, b = self.as_int(st, a), self.as_int(st, b)
            if op == "Eq":
                return c_eq(a, b)
            if op == "Ne":
                return c_not(c_eq(a, b))
            if op == "Lt":
                return c_ge(sub(sub(b, a), 1))
            if op == "Le":
                return c_ge(sub(b, a))
            if op == "Gt":
                return c_ge(sub(sub(a, b), 1))
            return c_ge(sub(a, b))
        if op == "Cmp":
            a, b = self.as_int(st, a), self.as_int(st, b)
            D = Dec(F)
            if D.lt(a, b):
                return Adt(0, (), dty)
            return Adt(1, (), dty) if D.eq(a, b) else Adt(2, (), dty)
        if op == "Offset":
            return self.ptr_add(st, a, b)
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
            if op == "BitAnd":
                return c_and(a, b)
            if op == "BitOr":
                return c_or(a, b)
            if op == "BitXor":
                if isinstance(a, bool):
                    return c_not(b) if a else b
                if isinstance(b, bool):
                    return c_not(a) if b else a
                return c_not(a) if Dec(F)(b) else a
        a, b = self.as_int(st, a), self.as_int(st, b)
        t = self.prog.types[dty]
        if op.endswith("WithOverflow"):
            t = self.prog.types[t["f"][0]]
            lo, hi = self.intrange(t)
            r = {"A": add, "S": sub, "M": mul}[op[0]](a, b)
            ov = c_or(c_not(c_ge(sub(r, lo))), c_not(c_ge(sub(hi, r))))
            # decide now, so that the value is exact when there is no overflow
            cl = c_eval(ov, F) if not isinstance(ov, bool) else ov
            if cl is True:
                return Adt(0, (self.fit(st, r, t), True))
            return Adt(0, (r, False if cl is False else ov))
        if op in ("Add", "Sub", "Mul"):
            return self.fit(st, {"Add": add, "Sub": sub, "Mul": mul}[op](a, b), t)
        if op in ("AddUnchecked", "SubUnchecked", "MulUnchecked"):
            return {"A": add, "S": sub, "M": mul}[op[0]](a, b)
        if op == "Div":
            if isinstance(a, int) and isinstance(b, int):
                q = abs(a) // abs(b)
                return q if (a < 0) == (b < 0) else -q
            if t["signed"] and not (F.ge(a)):
                raise Undecided("signed div")
            return div(a, b, F)
        if op == "Rem":
            if isinstance(a, int) and isinstance(b, int):
                r = abs(a) % abs(b)
                return -r if a < 0 else r
            if t["signed"] and not (F.ge(a)):
                raise Undecided("signed rem")
            return rem(a, b, F)
        if isinstance(a, int) and isinstance(b, int):
            if op == "BitAnd":
                return a & b
            if op == "BitOr":
                return a | b
            if op == "BitXor":
                return a ^ b
            if op in ("Shl", "ShlUnchecked"):
                return self.fit(st, a << (b % t["bits"]), t)
            if op in ("Shr", "ShrUnchecked"):
                return a >> (b % t["bits"])
        if op == "BitAnd":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return 0
                if b & (b + 1) == 0:
                    return rem(a, b + 1, F)
                # a mask of high bits or a single bit
                low = b & -b
                if (b // low) & (b // low + 1) == 0:
                    return mul(rem(div(a, low, F), b // low + 1, F), low)
            lo, hi = 0, F.bounds(b)[1]
            return P((((N.new_atom(("and", a, b), 0, hi, "and").id,), 1),), 0)
        if op in ("Shr", "ShrUnchecked") and isinstance(b, int):
            return div(a, 1 << b, F)
        if op in ("Shl", "ShlUnchecked") and isinstance(b, int):
            return self.fit(st, mul(a, 1 << b), t)
        if op in ("BitOr", "BitXor"):
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return a
                # disjoint bits
                low = b & -b
                if F.ge(a) and F.ge(sub(low - 1, a)):
                    return add(a, b)
            lo, hi = self.intrange(t)
            return P((((N.new_atom((op, a, b), lo, hi, op).id,), 1),), 0)
        raise Undecided("binop %s" % op)

    def ptr_add(self, st, p, k):
        if isinstance(p, Ptr) and p.path and p.path[-1][0] == "i":
            return Ptr(p.root, p.path[:-1] + (("i", add(p.path[-1][1], k)),))
        if isinstance(k, int) and k == 0:
            return p
        if isinstance(p, Ptr):
            v, path = self.load(st, p), p.path
            while isinstance(v, Adt) and len(v.f) == 1:  # a transparent wrapper
                v, path = v.f[0], path + (("f", 0),)
            if isinstance(v, Arr):
                return Ptr(p.root, path + (("i", k),))
        raise Undecided("pointer arithmetic on %r" % (p,))

    def pointee(self, ty):
        t = self.prog.types[ty]
        if t["k"] == "adt" and t["path"] == "core::ptr::NonNull":
            return t["args"][0]
        return t.get("p")

    def to_elements(self, st, v, fty, tty):
        """a pointer to an array, or to a transparent wrapper of one, that becomes one to its first element"""
        s, d = self.pointee(fty), self.pointee(tty)
        if s is None or d is None or s == d:
            return v
        src = self.prog.types[s]
        while s != d and src["k"] == "adt" and len(src["v"]) == 1 and len(src["v"][0]["f"]) == 1:
            s = src["v"][0]["f"][0][1]
            src = self.prog.types[s]
        if s == d or src["k"] != "array" or src["e"] != d:
            return v
        x, path = self.load(st, v), v.path
        while isinstance(x, Adt) and len(x.f) == 1:
            x, path = x.f[0], path + (("f", 0),)
        return Ptr(v.root, path + (("i", 0),)) if isinstance(x, Arr) else v

    def cast(self, st, kind, v, fty, tty):
        T = self.prog.types[tty]
        if kind == "IntToInt":
            if T["k"] == "char" or T["k"] == "bool":
                return v
            v = self.as_int(st, v)
            return self.fit(st, v, T)
        if kind.startswith("PtrUnsize"):
            ft = self.prog.types[fty] if fty is not None else None
            p = self.prog.types[T["p"]] if "p" in T else None
            if p is not None and p["k"] == "slice" and isinstance(v, Ptr):
                src = self.prog.types[ft["p"]]
                if src["k"] == "array":
                    return Sl(v, 0, src["len"])
            return v
        if kind in ("PtrToPtr", "PtrMutToConstPointer", "PtrArrayToPointer", "BoxDerefTransmute", "Subtype", "PointerExposeProvenance"):
            p = self.prog.types[T["p"]] if "p" in T else None
            if isinstance(v, Sl) and p is not None and p["k"] not in ("slice", "str", "dyn"):
                return Ptr(v.p.root, v.p.path + (("i", v.start),))
            if kind == "PtrArrayToPointer" and isinstance(v, Ptr):
                return Ptr(v.root, v.path + (("i", 0),))
            if isinstance(v, Ptr) and fty is not None:
                if p is not None and p["k"] == "int":
                    src = self.prog.types[self.prog.types[fty].get("p", fty)]
                    if src["k"] == "array":
                        return Ptr(v.root, v.path + (("i", 0),))
                return self.to_elements(st, v, fty, tty)
            return v
        if kind == "Transmute":
            if isinstance(v, Ptr) and fty is not None:
                q = self.to_elements(st, v, fty, tty)
                if q is not v:
                    return q
            p = self.prog.types[T["p"]] if "p" in T else None
            if p is not None and p["k"] == "slice" and isinstance(v, Str):
                return self.str_bytes(st, v)
            if p is not None and p["k"] == "str" and isinstance(v, Sl):
                return self.bytes_str(st, v)
            if T["k"] == "int" and isinstance(v, (bool, Cond)):
                return self.as_int(st, v)
            if T["k"] == "bool" and isinstance(v, (int, P)) and not isinstance(v, bool):
                return c_not(c_eq(v, 0))
            if self.maybe_nonzero(tty) and isinstance(v, (int, P)) and not isinstance(v, bool):
                return Adt(0, (), tty) if Dec(st.F).eq(v, 0) else Adt(1, (v,), tty)
            if T["k"] == "int" and isinstance(v, Adt) and fty is not None and self.maybe_nonzero(fty):
                return v.f[0] if v.v else 0
            return self.unwrap_to(v, tty)
        if kind.startswith("PtrReify") or kind.startswith("PtrClosureFn") or kind.startswith("PtrUnsafeFn"):
            return v
        raise Undecided("cast %s" % kind)

    def maybe_nonzero(self, ty):
        """Option<NonZero<..>>, which is a number in memory"""
        t = self.prog.types[ty]
        if t["k"] != "adt" or t["path"] != "core::option::Option":
            return False
        a = self.prog.types[t["v"][1]["f"][0][1]]
        return a["k"] == "adt" and a["path"].split("::")[-1] == "NonZero"

    def unwrap_to(self, v, ty):
        """a transmute out of (arrays of) transparent wrappers"""
        T = self.prog.types[ty]
        if isinstance(v, Arr) and T["k"] == "array":
            return Arr(tuple(self.unwrap_to(x, T["e"]) for x in v.e))
        while isinstance(v, Adt) and v.ty is not None and v.ty != ty and len(v.f) == 1:
            s = self.prog.types[v.ty]
            if s.get("path", "").split("::")[-1] in ("ManuallyDrop", "MaybeUninit", "MaybeDangling"):
                v = v.f[0]
            else:
                break
        return v

    def str_bytes(self, st, v):
        if v.sl is not None:
            return v.sl
        if all(t[0] == "c" and isinstance(t[1], int) for t in v.toks):
            bs = "".join(chr(t[1]) for t in v.toks).encode()
            root = self.prog.const_root(Arr(tuple(bs)))
            return Sl(Ptr(root, ()), 0, len(bs))
        if v.toks and all(t[0] == "bytes" for t in v.toks):
            bs = tuple(b for t in v.toks for b in t[1:])
            root = ("hsb", bs)
            st.mem[root] = Arr(bs)
            return Sl(Ptr(root, ()), 0, len(bs))
        raise Undecided("bytes of symbolic str")

    def bytes_str(self, st, v):
        return Str((), v)

    def strlen(self, st, v):
        """byte length of a str value"""
        if v.sl is not None:
            return v.sl.ln
        n = 0
        for t in v.toks:
            n = add(n, self.toklen(st, t))
        return n

    def toklen(self, st, t):
        if t[0] == "c":
            if isinstance(t[1], int):
                return len(chr(t[1]).encode())
            return self.charlen(st, t[1])
        if t[0] == "bytes":
            return len(t) - 1
        if t[0] == "o":
            return N.sym("len(%s)" % (t[1],), 0, (1 << 63) - 1)
        if t[0] == "sel":
            lens = []
            for x in t[1]:
                n = 0
                for y in x:
                    n = add(n, self.toklen(st, y))
                lens.append(n)
            return self.select(st, tuple(lens), t[2])
        key = ("len", t)
        return P((((N.new_atom(key, 0, (1 << 63) - 1, "len%r" % (t,)).id,), 1),), 0)

    def charlen(self, st, ch):
        if isinstance(ch, int):
            return len(chr(ch).encode())
        D = Dec(st.F)
        if D.lt(ch, 0x80):
            return 1
        if D.lt(ch, 0x800):
            return 2
        if D.lt(ch, 0x10000):
            return 3
        return 4

    # -------------------------------------------------------------- statements
    def rvalue(self, st, r, dpl):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k == "ref":
            return self.place(st, r[1])
        if k == "bin":
            a = self.operand(st, r[2])
            b = self.operand(st, r[3])
            return self.binop(st, r[1], a, b, self.place_ty(st, dpl))
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, r[2]), self.operand_ty(st, r[2]), r[3])
        if k == "un":
            a = self.operand(st, r[2])
            if r[1] == "Not":
                if isinstance(a, (bool, Cond)):
                    return c_not(a)
                t = self.prog.types[self.place_ty(st, dpl)]
                lo, hi = self.intrange(t)
                return sub(hi, a) if not t["signed"] else sub(-1, a)
            if r[1] == "Neg":
                return scale(self.as_int(st, a), -1)
            if r[1] == "PtrMetadata":
                if isinstance(a, Sl):
                    return a.ln
                if isinstance(a, Str):
                    return self.strlen(st, a)
                if isinstance(a, Ptr):
                    return UNIT
            raise Undecided("unop %s %r" % (r[1], a))
        if k == "discr":
            loc = self.place(st, r[1])
            v = self.load(st, loc)
            if isinstance(v, SymE):
                v = self.resolve_enum(st, v)
            if isinstance(v, Adt):
                t = self.prog.types[v.ty] if v.ty is not None else None
                if t is None or t["k"] != "adt":
                    return v.v
                d = int(t["v"][v.v]["d"])
                return d - 256 if t["path"] == "core::cmp::Ordering" and d > 127 else d
            if isinstance(v, NS):
                raise Undecided("discriminant of a modelled string")
            if v is UNINIT:
                # (an enum with a single possible variant needs no bytes)
                t = self.prog.types[self.place_ty(st, r[1])]
                if t["k"] == "adt" and t["adt"] == "enum":
                    vs = [x for x in t["v"] if not any(self.empty(f[1]) for f in x["f"])]
                    if len(vs) == 1:
                        return int(vs[0]["d"])
            raise Undecided("discriminant of %r" % (v,))
        if k == "agg":
            fs = tuple(self.operand(st, o) for o in r[2])
            if r[1] == "array":
                return Arr(fs)
            if r[1] == "tuple":
                return Adt(0, fs)
            if r[1] == "adt":
                t = self.prog.types[r[4]]
                if t.get("adt") == "union":
                    return fs[0] if fs else UNINIT
                return Adt(r[3], fs, r[4])
            if r[1] == "closure":
                return Adt(0, fs, r[4])
            if r[1] == "rawptr":
                p, m = fs
                if isinstance(p, Ptr) and p.path and p.path[-1][0] == "i":
                    if isinstance(m, (int, P)):
                        return Sl(Ptr(p.root, p.path[:-1]), p.path[-1][1], m)
                return p
            raise Undecided("aggregate %s" % r[1])
        if k == "repeat":
            return Arr((self.operand(st, r[1]),) * r[2])
        raise Undecided("rvalue %s" % k)

    # -------------------------------------------------------------- running
    def start(self, key, args, ghost=None, facts=None, mem=None):
        st = State()
        st.mem = dict(mem or {})
        st.F = facts or XFacts()
        st.frames = []
        st.ghost = ghost
        st.node = None
        st.ver = 0
        st.ip = 0
        st.trace = ()
        st.ev = ()
        st.mp = False
        body = self.prog.bodies[key]
        if callable(args):
            args = args(st, body)
        self.push_frame(st, body, args, None, None)
        return st

    def push_frame(self, st, body, args, dest, ret):
        if len(st.frames) >= self.MAXDEPTH:
            by = {}
            for f in st.frames:
                if f.sig is not None and f.body["crate"] == "nominals":
                    by.setdefault(f.body["key"], []).append(f)
            for fs in by.values():
                if len(fs) >= 8 and all(f.sig == fs[-1].sig for f in fs[-8:]):
                    raise Mismatch("recursion does not end: %s calls itself again and again with the same arguments" % fs[0].body["path"])
            raise Undecided("calls nested more than %d deep in %s" % (self.MAXDEPTH, body["path"]))
        self.res.functions.add(body["key"])
        d = len(st.frames)
        if st.frames:
            # forget what the caller no longer needs
            fr = st.frames[-1]
            if fr.body is not None and ret is not None:
                live = self.prog.prep(fr.body["key"])[1][ret]
                for k in [k for k in st.mem if k[0] == d - 1 and k[1] not in live]:
                    del st.mem[k]
        fr = Frame(body, 0, dest, ret)
        if d > self.MAXDEPTH // 2:
            fr.sig = tuple(self.argsig(st, a) for a in args)
        st.frames.append(fr)
        for i, a in enumerate(args):
            st.mem[(d, i + 1)] = a
        st.ip = 0

    def argsig(self, st, v, depth=0):
        """what a function is given, through references"""
        if depth > 4:
            return ("...",)
        if isinstance(v, Ptr):
            try:
                return ("&", self.argsig(st, self.load(st, v), depth + 1))
            except (Split, Undecided, Mismatch, Panic, KeyError):
                return v
        if isinstance(v, Adt):
            return (v.v, tuple(self.argsig(st, x, depth + 1) for x in v.f))
        return v

    def unmove(self, st):
        """what was moved out of is not there any more"""
        for root, path in self.moved:
            if not path:
                st.mem.pop(root, None)
            else:
                try:
                    self.store(st, Ptr(root, path), UNINIT)
                except (Split, Undecided):
                    pass
        self.moved = []

    def push_py(self, st, name, data, dest, ret):
        """a frame of a model that calls back into the program"""
        st.frames.append(Frame(None, 0, dest, ret, (name, data)))

    def ret_to(self, st, value):
        """return value from the current frame; True if the program goes on"""
        d = len(st.frames) - 1
        fr = st.frames.pop()
        for k in [k for k in st.mem if k[0] == d]:
            del st.mem[k]
        if not st.frames:
            return self.finish(st, value)
        top = st.frames[-1]
        if top.py is not None:
            h = self.models.PY[top.py[0]]
            h(self, st, top, value)
            return True
        self.store(st, fr.dest, value)
        if fr.ret is None:
            raise Infeasible()
        st.frames[-1] = top.with_(bb=fr.ret)
        st.ip = 0
        if fr.body is not None and fr.body["crate"] == "nominals" and (self.squash or self.spec is not None):
            st.mp = has_ns(value)
        return True

    def finish(self, st, value):
        self.res.returns.append((st, value))
        return False

    def order(self, st):
        """position in a weak topological order: outermost call first"""
        out = []
        for f in st.frames:
            out.append(self.prog.prep(f.body["key"])[3].get(f.bb, 0) if f.body is not None else 0)
        out.append(1 << 30)
        return tuple(out)

    def later(self, st):
        self.seq += 1
        heapq.heappush(self.work, (self.order(st), st.node.id if st.node is not None else 0, self.seq, st))

    def alarm(self, where, msg, st, start):
        if not N.refuted(st.F):
            where.append((msg, self.where(st) or self.where(start), st))

    def run(self, st):
        t0, first = time.time(), None
        self.later(st)
        while self.work:
            _, _, _, st = heapq.heappop(self.work)
            if st.node is not None and st.node.ver != st.ver:
                continue
            self.cur = st
            try:
                self.explore(st)
            except Infeasible:
                pass
            except Panic as e:
                self.alarm(self.res.panics, e.msg, self.cur, st)
            except Mismatch as e:
                self.alarm(self.res.mismatches, e.msg, self.cur, st)
            except Undecided as e:
                self.res.undecided.append((str(e), self.where(self.cur) or self.where(st), self.cur))
            except RecursionError:
                self.res.undecided.append(("recursion limit of the analysis", self.where(self.cur) or self.where(st), self.cur))
            if self.res.mismatches:
                first = first or time.time()
                if len(self.res.mismatches) > 300 or time.time() > first + 30:
                    break  # (nothing is to be proved any more)
            if self.res.steps > self.MAXSTEPS:
                self.res.undecided.append(("step limit", "", None))
                break
            if self.opts.get("stop") and (self.res.mismatches or self.res.panics or self.res.undecided):
                break
        self.work.clear()
        self.res.time = time.time() - t0
        return self.res

    def where(self, st):
        out = []
        for f in reversed(st.frames):
            if f.body is None:
                continue
            bl = f.body["blocks"][f.bb]
            ln = bl["l"]
            for x in bl["s"][: (st.ip if f is st.frames[-1] else None)]:
                if x[0] == "=":
                    ln2 = x[3]
            if f.body["crate"] in ("nominals",):
                out.append("%s at %s" % (f.body["path"], ln))
        return " <- ".join(out[:4])

    def explore(self, st):
        """runs st until it ends; queues what it splits into"""
        while True:
            snap_ip = st.ip
            fr = st.frames[-1]
            self.res.steps += 1
            if self.res.steps > self.MAXSTEPS:
                return
            try:
                if fr.py is not None:
                    self.models.PYSTEP(self, st, fr)
                    continue
                bl = fr.body["blocks"][fr.bb]
                if st.ip == 0:
                    if st.mp or fr.bb in self.prog.prep(fr.body["key"])[0]:
                        if not self.arrive(st):
                            return
                    st.ip = 1
                    continue
                n = len(bl["s"])
                if st.ip <= n:
                    s = bl["s"][st.ip - 1]
                    if s[0] == "=":
                        self.moved = []
                        v = self.rvalue(st, s[2], s[1])
                        if self.moved:
                            if s[1][1]:
                                self.place(st, s[1])
                            self.unmove(st)
                        if not s[1][1]:
                            st.mem[(len(st.frames) - 1, s[1][0])] = v
                        else:
                            self.store(st, self.place(st, s[1]), v)
                    elif s[0] == "dead":
                        st.mem.pop((len(st.frames) - 1, s[1]), None)
                    elif s[0] == "sd":
                        loc = self.place(st, s[1])
                        v = self.load(st, loc)
                        ty = self.place_ty(st, s[1])
                        self.store(st, loc, Adt(s[2], v.f if isinstance(v, Adt) else (), ty))
                    elif s[0] == "assume":
                        c = self.operand(st, s[1])
                        if not c_assume(c, st.F) :
                            raise Infeasible()
                    elif s[0] == "copyno":
                        self.models.copy(self, st, self.operand(st, s[1]), self.operand(st, s[2]), self.operand(st, s[3]))
                    st.ip += 1
                    continue
                if not self.terminator(st, fr, bl["t"]):
                    return
            except Split as sp:
                self.res.splits += 1
                alive = []
                for o in sp.options:
                    c = st.copy()
                    c.ip = snap_ip
                    if o(c.F):
                        alive.append(c)
                for c in alive[1:]:
                    self.later(c)
                if not alive:
                    return
                self.cur = st = alive[0]

    def goto(self, st, bb):
        st.frames[-1] = st.frames[-1].with_(bb=bb)
        st.ip = 0

    def terminator(self, st, fr, t):
        k = t[0]
        if k == "goto":
            self.goto(st, t[1])
            return True
        if k == "switch":
            v = self.operand(st, t[1])
            T = self.prog.types[t[4]]
            if T["k"] == "bool" or isinstance(v, (bool, Cond)):
                b = Dec(st.F)(v)
                v = int(b)
                for val, bb in t[2]:
                    if int(val) == v:
                        self.goto(st, bb)
                        return True
                self.goto(st, t[3])
                return True
            v = self.as_int(st, v)
            D = Dec(st.F)
            for val, bb in t[2]:
                val = int(val)
                if T.get("signed"):
                    if val >= 1 << (T["bits"] - 1):
                        val -= 1 << T["bits"]
                if D.eq(v, val):
                    self.goto(st, bb)
                    return True
            self.goto(st, t[3])
            return True
        if k == "ret":
            v = st.mem.get((len(st.frames) - 1, 0), UNIT)
            if len(st.frames) == 1 and self.spec is not None:
                c = st.copy()
                self.spec.on_return(self, c, v)
                st.ghost = c.ghost
            snap = (dict(st.mem), list(st.frames))
            try:
                return self.ret_to(st, v)
            except Split:
                st.mem, st.frames = snap
                raise
        if k == "unreachable":
            raise Infeasible() if not self.opts.get("strict_unreachable") else Panic("unreachable")
        if k == "drop":
            self.goto(st, t[2])
            return True
        if k == "assert":
            c = self.operand(st, t[1])
            c = c if t[2] else c_not(c)
            if t[3] == "ubcheck":
                self.goto(st, t[4])
                return True
            r = c_eval(c, st.F)
            if r is None:
                # the failing side is reported, the other goes on
                bad = st.copy()
                ok = True
                try:
                    ok = self.assume_dis(c_not(c), bad)
                except Undecided:
                    pass
                if ok:
                    self.alarm(self.res.panics, t[3], bad, bad)
                if not self.assume_dis(c, st):
                    return False
                self.goto(st, t[4])
                return True
            if r is False:
                raise Panic(t[3])
            self.goto(st, t[4])
            return True
        if k == "call":
            return self.call(st, fr, t)
        if k == "resume":
            return False
        raise Undecided("terminator %s" % k)

    def assume_dis(self, c, st):
        """assume a condition that can be a disjunction (then only what it implies is lost)"""
        if isinstance(c, bool):
            return c
        if c.op == "or":
            # keep a component if the other is impossible
            a, b = c_eval(c.a, st.F), c_eval(c.b, st.F)
            if a is False:
                return self.assume_dis(c.b, st)
            if b is False:
                return self.assume_dis(c.a, st)
            return True
        if c.op == "and":
            return self.assume_dis(c.a, st) and self.assume_dis(c.b, st)
        return c_assume(c, st.F)

    def call(self, st, fr, t):
        self.res.calls += 1
        callee = t[1]
        self.moved = []
        args = [self.operand(st, o) for o in t[2]]
        moved = self.moved
        dest_pl = t[3]
        ret = t[4]
        dest = self.place(st, dest_pl)
        if not moved:
            return self.invoke(st, callee, args, dest, ret, t[5])
        snap = dict(st.mem)
        fsn = list(st.frames)
        self.moved = moved
        self.unmove(st)
        try:
            return self.invoke(st, callee, args, dest, ret, t[5])
        except Split:
            st.mem = snap
            st.frames = fsn
            raise

    def invoke(self, st, callee, args, dest, ret, rty=None):
        if callee["kind"] == "fnptr":
            v = self.operand(st, callee["op"])
            if isinstance(v, FnV):
                callee = self.prog.types[v.ty]["callee"]
            else:
                raise Undecided("call through a pointer")
        rpath = callee.get("rpath", callee["path"])
        if callee.get("crate") == "alloc":
            self.res.alloc.add(rpath)
        snap = None
        con = self.contracts.get(callee.get("key"))
        h = con or self.models.find(rpath, callee)
        if h is not None:
            snap = dict(st.mem)
            fsn = list(st.frames)
            ip = st.ip
            try:
                r = h(self, st, callee, args, dest, ret, rty)
            except Split:
                st.mem = snap
                st.frames = fsn
                st.ip = ip
                raise
            if r is NotImplemented:
                st.mem = snap
            elif r is GO or r is STOP:
                return r is GO
            else:
                # a value
                self.store(st, dest, r)
                if ret is None:
                    raise Infeasible()
                self.goto(st, ret)
                return True
        if callee["kind"] == "virtual" and "nominals::NominalSystem" in rpath:
            self.store(st, dest, self.models.virtual(self, st, callee, args, dest, ret, rty))
            if ret is None:
                raise Infeasible()
            self.goto(st, ret)
            return True
        contract = getattr(self.spec, "contract", None)
        if contract is not None:
            r = contract(self, st, callee, args, rty)
            if r is not None:
                self.store(st, dest, r)
                if ret is None:
                    raise Infeasible()
                self.goto(st, ret)
                return True
        if callee["kind"] in ("intrinsic", "virtual", "unresolved"):
            raise Undecided("no model for %s %s" % (callee["kind"], rpath))
        body = None
        if "dkey" in callee and args and self.model_iter(st, args[0]):
            body = self.prog.bodies.get(callee["dkey"])
        if body is None:
            body = self.prog.bodies.get(callee.get("key"))
        if body is None or body.get("nobody"):
            raise Undecided("no body for %s" % rpath)
        args = self.abi(callee, body, args)
        self.push_frame(st, body, args, dest, ret)
        return True

    def model_iter(self, st, v):
        if isinstance(v, Ptr):
            v = self.load(st, v)
        return isinstance(v, (ItSl, ItVal, ItZip, ItMap, ItChars))

    def abi(self, callee, body, args):
        if callee.get("rustcall") and body["kind"] == "closure":
            if len(args) == 2 and isinstance(args[1], Adt) and len(args[1].f) == body["nargs"] - 1:
                args = [args[0]] + list(args[1].f)
        return args

    def invoke_fn(self, st, f, args, dest, ret):
        """call a function value (fn item or closure) with plain arguments"""
        if isinstance(f, FnV):
            callee = self.prog.types[f.ty]["callee"]
            return self.invoke(st, callee, list(args), dest, ret)
        raise Undecided("call of %r" % (f,))

    # -------------------------------------------------------------- loop heads
    def flatten(self, st):
        """(shape, leaves): leaves are (address, value) of symbolic and concrete integers"""
        leaves = []
        shape = []

        def go(addr, v):
            if isinstance(v, bool):
                shape.append((addr, v))
            elif isinstance(v, int):
                leaves.append((addr, v))
            elif isinstance(v, P):
                leaves.append((addr, v))
            elif isinstance(v, Cond):
                shape.append((addr, "cond"))
                leaves.append((addr, v))
            elif isinstance(v, Adt):
                shape.append((addr, "A", v.v, len(v.f)))
                for i, x in enumerate(v.f):
                    go(addr + (i,), x)
            elif isinstance(v, Arr):
                shape.append((addr, "R", len(v.e)))
                for i, x in enumerate(v.e):
                    go(addr + (i,), x)
            elif isinstance(v, Ptr):
                shape.append((addr, "P", v.root, len(v.path)))
                for i, x in enumerate(v.path):
                    if x[0] == "i":
                        go(addr + ("p", i), x[1])
                    else:
                        shape.append((addr, x))
            elif isinstance(v, Sl):
                go(addr + ("sl",), v.p)
                go(addr + ("st",), v.start)
                go(addr + ("ln",), v.ln)
            elif isinstance(v, ItSl):
                shape.append((addr, "ItSl"))
                go(addr + (0,), v.sl)
                go(addr + (1,), v.i)
                go(addr + (2,), v.j)
            elif isinstance(v, ItVal) and symbolic(v.e):
                shape.append((addr, "ItVal", len(v.e)))
                go(addr + (0,), v.e)
                go(addr + (1,), v.i)
                go(addr + (2,), v.j)
            elif isinstance(v, (ItVal, ItChars)):
                shape.append((addr, type(v).__name__, hash(v.e if isinstance(v, ItVal) else v.toks)))
                go(addr + (1,), v.i)
                go(addr + (2,), v.j)
            elif isinstance(v, ItZip):
                shape.append((addr, "Zip"))
                go(addr + (0,), v.a)
                go(addr + (1,), v.b)
            elif isinstance(v, ItMap):
                shape.append((addr, "ItMap", v.kind))
                go(addr + (0,), v.it)
                go(addr + (1,), v.n)
            elif isinstance(v, NS):
                shape.append((addr, "NS", v.base, len(v.front), len(v.back)))
                for i, x in enumerate(v.front):
                    go(addr + ("F", i), x)
                for i, x in enumerate(v.back):
                    go(addr + ("B", i), x)
            elif isinstance(v, (HS, Str)):
                shape.append((addr, type(v).__name__, len(v.toks)))
                for i, x in enumerate(v.toks):
                    go(addr + ("B", i), x)
                if isinstance(v, Str) and v.sl is not None:
                    go(addr + ("sl",), v.sl)
            elif isinstance(v, tuple):
                shape.append((addr, "t", len(v)))
                for i, x in enumerate(v):
                    go(addr + (i,), x)
            else:
                shape.append((addr, v))

        for k in sorted(st.mem, key=repr):
            go((k,), st.mem[k])
        if st.ghost is not None:
            go((("ghost",),), st.ghost)
        shape.append(tuple(sorted(st.F.en.items())))
        shape.append(st.ev)
        return shape, leaves

    def rebuild(self, st, f):
        """maps every integer/condition leaf through f(addr, value)"""

        def go(addr, v):
            if isinstance(v, bool):
                return v
            if isinstance(v, (int, P, Cond)):
                return f(addr, v)
            if isinstance(v, Adt):
                return Adt(v.v, tuple(go(addr + (i,), x) for i, x in enumerate(v.f)), v.ty)
            if isinstance(v, Arr):
                return Arr(tuple(go(addr + (i,), x) for i, x in enumerate(v.e)))
            if isinstance(v, Ptr):
                return Ptr(v.root, tuple(("i", go(addr + ("p", i), x[1])) if x[0] == "i" else x for i, x in enumerate(v.path)))
            if isinstance(v, Sl):
                return Sl(go(addr + ("sl",), v.p), go(addr + ("st",), v.start), go(addr + ("ln",), v.ln))
            if isinstance(v, ItSl):
                return ItSl(go(addr + (0,), v.sl), go(addr + (1,), v.i), go(addr + (2,), v.j))
            if isinstance(v, ItVal):
                return ItVal(go(addr + (0,), v.e) if symbolic(v.e) else v.e, go(addr + (1,), v.i), go(addr + (2,), v.j))
            if isinstance(v, ItChars):
                return ItChars(v.toks, go(addr + (1,), v.i), go(addr + (2,), v.j))
            if isinstance(v, ItZip):
                return ItZip(go(addr + (0,), v.a), go(addr + (1,), v.b))
            if isinstance(v, ItMap):
                return ItMap(v.kind, go(addr + (0,), v.it), go(addr + (1,), v.n))
            if isinstance(v, NS):
                return NS(
                    tuple(go(addr + ("F", i), x) for i, x in enumerate(v.front)),
                    v.base,
                    tuple(go(addr + ("B", i), x) for i, x in enumerate(v.back)),
                    v.rev,
                )
            if isinstance(v, HS):
                return HS(tuple(go(addr + ("B", i), x) for i, x in enumerate(v.toks)), v.ident)
            if isinstance(v, Str):
                return Str(
                    tuple(go(addr + ("B", i), x) for i, x in enumerate(v.toks)),
                    go(addr + ("sl",), v.sl) if v.sl is not None else None,
                )
            if isinstance(v, tuple):
                return tuple(go(addr + (i,), x) for i, x in enumerate(v))
            return v

        for k in list(st.mem):
            st.mem[k] = go((k,), st.mem[k])
        if st.ghost is not None:
            st.ghost = go((("ghost",),), st.ghost)

    def arrive(self, st):
        """at a loop head: False if the state is already covered"""
        if self.opts.get("unroll"):
            st.mp = False
            return True
        fr = st.frames[-1]
        d = len(st.frames) - 1
        live = self.prog.prep(fr.body["key"])[1][fr.bb]
        for k in [k for k in st.mem if k[0] == d and k[1] not in live]:
            del st.mem[k]
        if self.spec is not None:
            c = st.copy()
            self.spec.flush(self, c)
            st.mem, st.ghost = c.mem, c.ghost
        elif self.squash:
            for k, v in st.mem.items():
                st.mem[k] = self.models.squash(v)
        ctx = tuple((f.body["key"] if f.body else f.py[0], f.bb) for f in st.frames)
        F0 = st.F
        folded = set()
        eqs = N.equalities(F0, inputs=True)
        if eqs:
            # one name for inputs that are equal
            G = F0.copy()
            for t, v in F0.lb.items():
                p = P(t, -v)
                q = N.canon(F0, p, eqs)
                if q != p and not G.add_ge(q):
                    raise Infeasible()
            st.F = F0 = G

        def const(a, v):
            if isinstance(v, P):
                if eqs:
                    v = N.canon(F0, v, eqs)
                    if isinstance(v, int):
                        return v
                lo, hi = F0.bounds(v)
                if lo is not None and lo == hi:
                    folded.add(a)
                    return lo
            elif isinstance(v, Cond):
                r = c_eval(v, F0)
                if r is not None:
                    return r
            return v

        self.rebuild(st, const)
        self.forget(st)
        loop = self.loops.setdefault(ctx, {"nodes": {}, "wide": set()})
        self.folded |= folded
        shape, leaves = self.flatten(st)
        wide = loop["wide"]
        key = (tuple(shape), tuple((a, part(v) if a not in wide else "*") for a, v in leaves))
        node = loop["nodes"].get(key)
        if node is None:
            if len(loop["nodes"]) >= loop.get("max", self.MAXPART):
                # widen the integers that vary
                vals = {}
                for nd in loop["nodes"].values():
                    for a, v in nd.leaves:
                        if isinstance(v, int):
                            vals.setdefault(a, set()).add(v)
                new = {a for a, s in vals.items() if len(s) > 8} - wide
                new = (new & self.folded) or new
                if not new and len(loop["nodes"]) >= 8 * self.MAXPART:
                    raise Undecided("too many shapes at a loop head")
                if not new:
                    loop["max"] = 8 * self.MAXPART
                    return self.arrive(st)
                if self.opts.get("dbg"):
                    print("WIDEN", ctx[-1], {a: len(s) for a, s in vals.items()}, "folded", self.folded, "new", new, collections.Counter(k[0] for k in loop["nodes"]).most_common(3))
                wide |= new
                loop["nodes"] = {}
                return self.arrive(st)
            node = Node()
            node.id = len(self.res.nodes)
            node.key = key
            node.name = "%s bb%d" % (fr.body["path"], fr.bb)
            node.ver = 0
            node.joins = 0
            node.gen = {}
            node.edges = []
            node.state = st.copy()
            node.leaves = leaves
            self.res.nodes.append(node)
            loop["nodes"][key] = node
            self.edge(st, node, leaves)
            c = st.copy()
            c.node = node
            c.ver = 0
            c.ip = 1
            c.mp = False
            self.later(c)
            return False
        self.edge(st, node, leaves)
        if self.included(st, leaves, node):
            return False
        node.joins += 1
        if node.joins > (14 if node.gen else 60):
            raise Undecided("no fixpoint at a loop head (%s)" % node.name)
        new = self.join(node, st, leaves)
        node.state = new
        node.ver += 1
        _, node.leaves = self.flatten(new)
        c = new.copy()
        c.node = node
        c.ver = node.ver
        c.ip = 1
        c.mp = False
        self.later(c)
        return False

    def forget(self, st):
        """drops the facts about values that no longer exist"""
        need = set()
        stack = []

        def seen(v):
            if isinstance(v, P):
                for m, _ in v.t:
                    for i in m:
                        if i not in need:
                            need.add(i)
                            stack.append(i)
            elif isinstance(v, Cond):
                seen(v.a)
                seen(v.b)
            elif isinstance(v, tuple):
                for x in v:
                    if isinstance(x, (tuple, P, Cond)):
                        seen(x)

        for _, v in self.flatten(st)[1]:
            seen(v)
        for a in N.ATOMS:
            if a.key[0] == "sym":
                need.add(a.id)
        for x in self.opts.get("templates", ()):
            seen(x)
        while stack:
            seen(N.ATOMS[stack.pop()].key)
        F = st.F
        drop = [t for t in F.lb if not all(i in need for m, _ in t for i in m)]
        for _ in range(4):
            more = []
            for t in drop:
                v = F.lb.pop(t, None)
                if v is None:
                    continue
                if len(t) == 1 and len(t[0][0]) == 1:
                    # x/c >= v is x >= c*v
                    a = N.ATOMS[t[0][0][0]]
                    if a.key[0] == "div" and isinstance(a.key[2], int) and a.key[2] > 0 and abs(t[0][1]) == 1:
                        x, c = a.key[1], a.key[2]
                        if t[0][1] == 1:
                            p = sub(x, c * v)
                        else:
                            p = sub(c * -v + c - 1, x)
                        F.add_ge(p)
                        if isinstance(p, P) and p.t in F.lb and not all(i in need for m, _ in p.t for i in m):
                            more.append(p.t)
            drop = more
            if not drop:
                break
        for t in drop:
            F.lb.pop(t, None)
        F.ne = {x for x in F.ne if all(i in need for m, _ in x[0] for i in m)}

    def edge(self, st, node, leaves):
        if st.node is not None:
            self.res.edges.append((st.node, st.ver, node, dict(leaves), st.F.copy()))

    def included(self, st, leaves, node):
        sig = {}
        lv = dict(leaves)
        sl = node.leaves
        todo = []
        same = []
        for a, s in sl:
            v = lv[a]
            if isinstance(s, int):
                if v != s:
                    return False
            elif isinstance(s, Cond):
                if s != v:
                    # a generalised condition accepts everything
                    if not (s.op == "ge" and self.is_gen(node, s.a)):
                        return False
            elif isinstance(v, Cond):
                return False
            else:
                g = self.single(s)
                if g is not None and g in node.gen:
                    if g in sig:
                        same.append((sig[g], v))
                    else:
                        sig[g] = v
                else:
                    todo.append((s, v))
        F = st.F
        for s, v in same:
            if s != v and not F.eq(sub(s, v)):
                return False
        for s, v in todo:
            s2 = self.subst(s, sig)
            if s2 is None or not F.eq(sub(s2, v)):
                return False
        for t, v in node.state.F.lb.items():
            p = self.subst(P(t, -v), sig, node)
            if p is None:
                return False
            if not F.ge(p):
                return False
        for t, v in node.state.F.ne:
            p = self.subst(P(t, -v), sig, node)
            if p is None or not F.neq(p):
                return False
        return True

    def single(self, s):
        if isinstance(s, P) and s.k == 0 and len(s.t) == 1 and s.t[0][1] == 1 and len(s.t[0][0]) == 1:
            return s.t[0][0][0]
        return None

    def is_gen(self, node, p):
        return isinstance(p, P) and all(i in node.gen for m, _ in p.t for i in m)

    def subst(self, p, sig, node=None, depth=0):
        """replace atoms by values (through the terms built from them)"""
        if not sig or isinstance(p, int):
            return p
        r = p.k
        for m, c in p.t:
            x = c
            for i in m:
                x = mul(x, self.subst_atom(i, sig, depth))
            r = add(r, x)
        return r

    def subst_atom(self, i, sig, depth):
        if i in sig:
            return sig[i]
        a = N.ATOMS[i]
        if a.key[0] == "div" and depth < 8:
            x = self.subst(a.key[1], sig, None, depth + 1)
            c = self.subst(a.key[2], sig, None, depth + 1) if isinstance(a.key[2], P) else a.key[2]
            if x != a.key[1] or c != a.key[2]:
                if isinstance(c, int) and c <= 0:
                    return P((((i,), 1),), 0)
                return div(x, c, XFacts())
        return P((((i,), 1),), 0)

    def join(self, node, st, leaves):
        A = node.state
        lv = dict(leaves)
        first = node.joins == 1
        wide = node.joins >= 6
        pairs = {}
        gen = {}
        order = []
        FA, FB = A.F, st.F
        # find a counter: leaf that moves by a constant +-1
        diffs = []
        for a, s in node.leaves:
            v = lv[a]
            if isinstance(s, (int, P)) and isinstance(v, (int, P)) and not isinstance(s, bool) and s != v:
                if not FB.eq(sub(s, v)):
                    diffs.append((a, s, v))
        new_of = {}

        def leaf(a, s):
            if a in new_of:
                return new_of[a]
            return s

        counter = None
        inputs = [x for x in (getattr(self.spec, "n", None),) if isinstance(x, P)]
        moved = {a for a, s, v in diffs}
        stable = []
        for a, s in node.leaves:
            if isinstance(s, P) and a not in moved and s not in stable and s not in inputs:
                stable.append(s)
        if not wide:
            # the counter comes first: other values are expressed with it
            for i, (a, s, v) in enumerate(diffs):
                if isinstance(s, P) and isinstance(v, P) and sub(v, s) in (1, -1):
                    diffs = [diffs[i]] + diffs[:i] + diffs[i + 1 :]
                    break
        for a, s, v in diffs:
            # a value that happens to be known: is it still an input?
            x = None
            if isinstance(s, int) and isinstance(v, P) and not any(i in gen or i in node.gen for m, _ in v.t for i in m) and FA.eq(sub(s, v)):
                x = v
            elif isinstance(s, int) or isinstance(v, int):
                for y in inputs:
                    if FA.eq(sub(s, y)) and FB.eq(sub(v, y)):
                        x = y
                        break
            if x is None:
                # is it a value that is still there?
                for y in stable:
                    if FA.eq(sub(s, y)) and FB.eq(sub(v, y)):
                        x = y
                        break
            if x is not None:
                new_of[a] = x
                continue
            d = sub(v, s)
            if (s, v) in pairs:
                new_of[a] = pairs[(s, v)]
                continue
            # affine in a known counter?
            if counter is not None:
                ca, cs, cd, cg, cv = counter
                # v - s = k * cd
                if isinstance(d, (int, P)) and isinstance(cd, int):
                    q = d if cd == 1 else scale(d, -1)
                    if self.invariant(q, diffs, gen):
                        val = add(s, mul(q, sub(cg, cs)))
                        pairs[(s, v)] = val
                        new_of[a] = val
                        continue
            lo1, hi1 = FA.bounds(s)
            lo2, hi2 = FB.bounds(v)
            lo = None if lo1 is None or lo2 is None else min(lo1, lo2)
            hi = None if hi1 is None or hi2 is None else max(hi1, hi2)
            if wide:
                lo = 0 if lo is not None and lo >= 0 else None
                hi = self.widen_hi(hi, hi1)
            name = self.addr_name(a, A)
            g = N.fresh(name, 0 if lo is not None and lo >= 0 else None, None if hi is None else self.widen_hi(hi, None))
            gid = g.t[0][0][0]
            gen[gid] = (s, v)
            pairs[(s, v)] = g
            new_of[a] = g
            order.append((g, s, v, lo, hi))
            if counter is None and isinstance(d, int) and abs(d) == 1 and not wide:
                counter = (a, s, d, g, v)
        new = A.copy()
        for a, s in node.leaves:
            v = lv[a]
            if isinstance(s, Cond) or isinstance(v, Cond):
                if s != v:
                    b = N.fresh("cond", 0, 1)
                    gen[b.t[0][0][0]] = (s, v)
                    new_of[a] = Cond("ge", sub(b, 1))
        self.rebuild(new, lambda a, s: new_of.get(a, s))
        # facts
        F = XFacts()
        F.en = {k: v for k, v in FA.en.items() if FB.en.get(k) == v}
        sigA = {g: p[0] for g, p in gen.items()}
        sigB = {g: p[1] for g, p in gen.items()}
        old = set(node.gen)
        cand = list(FA.lb.items()) + (list(FB.lb.items()) if first else [])
        # facts over old generalised atoms are restated over the new ones
        back = {}
        for g, (s, v) in gen.items():
            o = self.single(s) if isinstance(s, P) else None
            if o is not None and o in old:
                back[o] = P((((g,), 1),), 0)
        seen = set()
        for t, v in cand:
            p = P(t, -v)
            if back:
                p = self.subst(p, back)
                if isinstance(p, int):
                    continue
            if (p.t, p.k) in seen:
                continue
            seen.add((p.t, p.k))
            pa = self.subst(p, sigA)
            pb = self.subst(p, sigB)
            if FA.ge(pa) and FB.ge(pb):
                F.add_ge(p)
            elif not wide and first:
                l1 = FA.bounds(P(p.t, 0))[0] if pa == p else None
                l2 = FB.bounds(P(p.t, 0))[0] if pb == p else None
                if l1 is not None and l2 is not None:
                    F.add_ge(P(p.t, -min(l1, l2)))
        unequal = []
        for side, FX in ((0, FA), (1, FB)):
            for t, v in FX.ne:
                p = P(t, -v)
                unequal.append(self.subst(p, back) if back else p)
                # restated over what the values are joined into
                for g, sv in gen.items():
                    if isinstance(sv[side], P):
                        for sign in (1, -1):
                            c = sub(p, N.mul(sign, sv[side]))
                            if isinstance(c, int):
                                unequal.append(N.add(P((((g,), 1),), 0), sign * c))
        for p in unequal:
            if isinstance(p, P) and ("ne", p.t, p.k) not in seen:
                seen.add(("ne", p.t, p.k))
                if FA.neq(self.subst(p, sigA)) and FB.neq(self.subst(p, sigB)):
                    F.add_ne(p)
        # templates: bounds and unit differences
        interesting = []
        for a, s in node.leaves:
            x = new_of.get(a, s)
            if isinstance(x, P) and x not in interesting and len(x.t) <= 2:
                interesting.append(x)
        for k, v in list(st.mem.items()):
            pass
        for x in self.opts.get("templates", ()):
            if x not in interesting:
                interesting.append(x)
        for g, s, v, lo, hi in order:
            if lo is not None:
                F.add_ge(sub(g, lo))
            if hi is not None:
                F.add_ge(sub(hi, g))
            for c in (0, 1):
                if FA.ge(sub(s, c)) and FB.ge(sub(v, c)):
                    F.add_ge(sub(g, c))
            for x in interesting[:24]:
                if x == g:
                    continue
                xa = self.subst(x, sigA)
                xb = self.subst(x, sigB)
                for k in (1, 0):
                    if FA.ge(sub(sub(xa, s), k)) and FB.ge(sub(sub(xb, v), k)):
                        F.add_ge(sub(sub(x, g), k))
                        break
                for k in (1, 0):
                    if FA.ge(sub(sub(s, xa), k)) and FB.ge(sub(sub(v, xb), k)):
                        F.add_ge(sub(sub(g, x), k))
                        break
        new.F = F
        node.gen = gen
        return new

    def invariant(self, q, diffs, gen):
        if isinstance(q, int):
            return True
        at = N.atoms_of(q)
        for _, s, v in diffs:
            if isinstance(s, P) and at & N.atoms_of(s) and self.single(s) is not None and self.single(s) in at:
                return False
        return True

    def widen_hi(self, hi, old):
        if hi is None:
            return None
        for b in (1, 8, 16, 32, 64, 128):
            if hi <= (1 << b) - 1:
                return (1 << b) - 1
        return None

    def addr_name(self, a, st):
        k = a[0]
        if isinstance(k, tuple) and isinstance(k[0], int) and k[0] < len(st.frames):
            b = st.frames[k[0]].body
            if b is not None:
                for nm, l in b["names"]:
                    if l == k[1]:
                        return nm
        return "v"

    # -------------------------------------------------------------- termination
    def check_termination(self):
        """every cycle of loop heads needs a measure; returns the cycles without one"""
        edges = [e for e in self.res.edges if e[0].ver == e[1]]
        # merge by endpoints
        bad = []
        adj = {}
        for e in edges:
            adj.setdefault(e[0].id, []).append(e)
        nodes = {n.id: n for n in self.res.nodes}
        proved = 0

        def sccs(es):
            g = {}
            for e in es:
                g.setdefault(e[0].id, set()).add(e[2].id)
                g.setdefault(e[2].id, set())
            idx, low, stk, on, out = {}, {}, [], set(), []

            def strong(v):
                work = [(v, iter(sorted(g[v])))]
                idx[v] = low[v] = len(idx)
                stk.append(v)
                on.add(v)
                while work:
                    u, it = work[-1]
                    adv = False
                    for w in it:
                        if w not in idx:
                            idx[w] = low[w] = len(idx)
                            stk.append(w)
                            on.add(w)
                            work.append((w, iter(sorted(g[w]))))
                            adv = True
                            break
                        elif w in on:
                            low[u] = min(low[u], idx[w])
                    if adv:
                        continue
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[u])
                    if low[u] == idx[u]:
                        c = set()
                        while True:
                            w = stk.pop()
                            on.discard(w)
                            c.add(w)
                            if w == u:
                                break
                        out.append(c)

            for v in sorted(g):
                if v not in idx:
                    strong(v)
            return out

        def solve(es, depth=0):
            nonlocal proved
            for c in sccs(es):
                inner = [e for e in es if e[0].id in c and e[2].id in c]
                if not inner:
                    continue
                # candidate measures: leaves common to all nodes of the component
                common = None
                for i in c:
                    s = {a for a, v in nodes[i].leaves if not isinstance(v, Cond)}
                    common = s if common is None else common & s
                cands = []
                for a in sorted(common, key=repr):
                    if any(any(x == "F" or x == "B" for x in a) for _ in (0,)):
                        continue
                    if a[0][0] == "ghost":
                        continue
                    cands.append(("x", a))
                moving = []
                for kind, a in cands:
                    if any(e[3].get(a) != dict(e[0].leaves).get(a) for e in inner):
                        moving.append(a)
                cands = [("dec", a) for a in moving] + [("inc", a) for a in moving]
                cands += [("diff", a, b) for a in moving for b in sorted(common, key=repr) if a != b][:400]
                done = False
                for cd in cands:
                    strict = []
                    ok = True
                    for e in inner:
                        r = self.decreases(cd, e)
                        if r is None:
                            ok = False
                            break
                        strict.append(r)
                    if ok and any(strict):
                        rest = [e for e, s in zip(inner, strict) if not s]
                        proved += 1
                        if not rest or depth > 4 or solve(rest, depth + 1):
                            done = True
                            break
                if not done:
                    bad.append(sorted({nodes[i].name for i in c}))
                    return False
            return True

        solve(edges)
        return bad, proved

    def decreases(self, cd, e):
        """None: may increase; False: does not increase; True: strictly decreases and is bounded"""
        src, _, dst, lv, F = e
        old = dict(src.leaves)
        if cd[0] == "diff":
            # measure: b - a
            o = sub(old[cd[2]], old[cd[1]])
            n = sub(lv[cd[2]], lv[cd[1]])
        elif cd[0] == "inc":
            o = scale(old[cd[1]], -1) if not isinstance(old[cd[1]], int) else -old[cd[1]]
            n = scale(lv[cd[1]], -1) if not isinstance(lv[cd[1]], int) else -lv[cd[1]]
        else:
            o, n = old[cd[1]], lv[cd[1]]
        if not F.ge(sub(o, n)):
            return None
        if F.ge(sub(sub(o, n), 1)):
            if cd[0] == "dec":
                b = F.ge(o)
            elif cd[0] == "diff":
                b = F.ge(add(o, 1))
            else:
                lo = F.bounds(o)[0]
                b = lo is not None and lo > -(1 << 16)
            return True if b else False
        return False
