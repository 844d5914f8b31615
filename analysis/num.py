"""The numeric abstract domain: polynomials over interned terms, and conjunctions of integer
linear inequalities (monomials of degree > 1 count as variables).  Entailment is decided by
Fourier-Motzkin elimination with integer tightening; no external solver is used."""
from math import gcd

INF = None


class Atom:
    __slots__ = ("id", "key", "lo", "hi", "ax", "name")

    def __repr__(self):
        return self.name or repr(self.key)


ATOMS = []
BYKEY = {}


def new_atom(key, lo, hi, name=None):
    a = BYKEY.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(ATOMS)
    a.key = key
    a.lo = lo
    a.hi = hi
    a.ax = ()
    a.name = name
    ATOMS.append(a)
    BYKEY[key] = a
    return a


_fresh = [0]


def fresh(name, lo, hi):
    _fresh[0] += 1
    return P(((( new_atom(("fresh", _fresh[0]), lo, hi, "%s#%d" % (name, _fresh[0])).id,), 1),), 0)


def sym(name, lo, hi):
    return P((((new_atom(("sym", name), lo, hi, name).id,), 1),), 0)


class P:
    """t: sorted tuple of (monomial, coefficient); k: constant"""

    __slots__ = ("t", "k", "h")

    def __init__(self, t, k):
        self.t = t
        self.k = k
        self.h = hash((t, k))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, P) and self.h == o.h and self.k == o.k and self.t == o.t

    def __repr__(self):
        out = []
        for m, c in self.t:
            s = "*".join(repr(ATOMS[i]) for i in m)
            out.append(("%d*" % c if c != 1 else "") + s)
        if self.k:
            out.append(str(self.k))
        return "(" + " + ".join(out) + ")"


def mk(d, k):
    t = tuple(sorted((m, c) for m, c in d.items() if c))
    if not t:
        return k
    return P(t, k)


def lin(a, ca, b, cb):
    """ca*a + cb*b"""
    ai = isinstance(a, int)
    bi = isinstance(b, int)
    if ai and bi:
        return ca * a + cb * b
    d = {}
    k = 0
    if ai:
        k += ca * a
    else:
        k += ca * a.k
        for m, c in a.t:
            d[m] = ca * c
    if bi:
        k += cb * b
    else:
        k += cb * b.k
        for m, c in b.t:
            d[m] = d.get(m, 0) + cb * c
    return mk(d, k)


def add(a, b):
    return lin(a, 1, b, 1)


def sub(a, b):
    return lin(a, 1, b, -1)


def scale(a, c):
    return lin(a, c, 0, 0)


def mul(a, b):
    if isinstance(a, int):
        return scale(b, a) if not isinstance(b, int) else a * b
    if isinstance(b, int):
        return scale(a, b)
    d = {}
    ta = list(a.t) + [((), a.k)]
    tb = list(b.t) + [((), b.k)]
    for m1, c1 in ta:
        for m2, c2 in tb:
            m = tuple(sorted(m1 + m2))
            d[m] = d.get(m, 0) + c1 * c2
    k = d.pop((), 0)
    return mk(d, k)


def atoms_of(p, acc=None):
    acc = set() if acc is None else acc
    if isinstance(p, P):
        for m, _ in p.t:
            acc.update(m)
    return acc


REMB = {}  # linear part -> (lo, hi) of the linear part


def glob_bounds(p):
    """bounds that hold on every path"""
    if isinstance(p, int):
        return p, p
    b = REMB.get(p.t)
    if b:
        return b[0] + p.k, b[1] + p.k
    lo = hi = p.k
    for m, c in p.t:
        l, h = mono_bounds(m)
        if c < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
    return lo, hi


def mono_bounds(m):
    l, h = 1, 1
    for i in m:
        a = ATOMS[i]
        if len(m) == 1:
            return a.lo, a.hi
        if a.lo is None or a.lo < 0:
            return None, None
        l *= a.lo
        h = None if h is None or a.hi is None else h * a.hi
    return l, h


def norm(p):
    """p >= 0  ->  (linear key, lower bound)"""
    g = 0
    for _, c in p.t:
        g = gcd(g, c)
    if g > 1:
        t = tuple((m, c // g) for m, c in p.t)
        return t, -(p.k // g)
    return p.t, -p.k


def negt(t):
    return tuple((m, -c) for m, c in t)


class Contradiction(Exception):
    pass


NEST = 0
STEPS = 0


class Facts:
    __slots__ = ("lb", "ne", "dead")

    def __init__(self):
        self.lb = {}
        self.ne = set()
        self.dead = False

    def copy(self):
        f = Facts()
        f.lb = dict(self.lb)
        f.ne = set(self.ne)
        return f

    # ---- bounds
    def bounds(self, p):
        if isinstance(p, int):
            return p, p
        lo, hi = glob_bounds(p)
        # facts on exactly this linear form
        g = 0
        for _, c in p.t:
            g = gcd(g, c)
        t = tuple((m, c // g) for m, c in p.t) if g > 1 else p.t
        v = self.lb.get(t)
        if v is not None:
            v = v * g + p.k
            lo = v if lo is None or v > lo else lo
        v = self.lb.get(negt(t))
        if v is not None:
            v = -v * g + p.k
            hi = v if hi is None or v < hi else hi
        if len(p.t) > 1 or len(p.t[0][0]) > 1:
            l2 = h2 = p.k
            for m, c in p.t:
                l, h = self.mono(m)
                if c < 0:
                    l, h = h, l
                l2 = None if l2 is None or l is None else l2 + c * l
                h2 = None if h2 is None or h is None else h2 + c * h
            if l2 is not None and (lo is None or l2 > lo):
                lo = l2
            if h2 is not None and (hi is None or h2 < hi):
                hi = h2
        return lo, hi

    def mono(self, m):
        if len(m) == 1:
            a = ATOMS[m[0]]
            lo, hi = a.lo, a.hi
            t = ((m, 1),)
            v = self.lb.get(t)
            if v is not None and (lo is None or v > lo):
                lo = v
            v = self.lb.get(((m, -1),))
            if v is not None and (hi is None or -v < hi):
                hi = -v
            return lo, hi
        l, h = 1, 1
        for i in m:
            al, ah = self.mono((i,))
            if al is None or al < 0:
                return mono_bounds(m)
            l *= al
            h = None if h is None or ah is None else h * ah
        for t, s in ((((m, 1),), 1), (((m, -1),), -1)):
            v = self.lb.get(t)
            if v is not None:
                if s == 1:
                    l = max(l, v)
                else:
                    h = -v if h is None else min(h, -v)
        return l, h

    # ---- adding
    def add_ge(self, p):
        """assume p >= 0; False if contradictory"""
        if isinstance(p, int):
            return p >= 0
        t, v = norm(p)
        while (t, v) in self.ne or (negt(t), -v) in self.ne:
            v += 1
        o = self.lb.get(t)
        u = self.lb.get(negt(t))
        if u is not None and -u < v:
            return False
        if o is not None and v <= o:
            return True
        self.lb[t] = v
        global NEST, STEPS
        if NEST == 0:
            STEPS = 0
        if NEST > 24 or STEPS > 2000:  # (bounds that tighten each other by ever smaller steps)
            return True
        NEST += 1
        try:
            return self.propagate(t)
        finally:
            NEST -= 1

    def propagate(self, t):
        """interval propagation from the changed form t; False if contradictory"""
        global STEPS
        todo = [t]
        n = 0
        while todo:
            t = todo.pop()
            n += 1
            STEPS += 1
            if n > 60 or STEPS > 2000:
                break
            if len(t) > 1:
                changed = self.prop_form(t, self.lb[t])
            else:
                m = t[0][0]
                if not self.single_ok(m):
                    return False
                changed = {m}
            if changed is None:
                return False
            for m in changed:
                if len(m) == 1:
                    a = ATOMS[m[0]]
                    if a.key[0] == "div" and isinstance(a.key[2], int):
                        # lo <= x/c <= hi
                        lo, hi = self.mono(m)
                        x, c = a.key[1], a.key[2]
                        if lo is not None and (a.lo is None or lo > a.lo) and not self.add_ge(sub(x, c * lo)):
                            return False
                        if hi is not None and (a.hi is None or hi < a.hi) and not self.add_ge(sub(c * hi + c - 1, x)):
                            return False
                for ft in list(self.lb):
                    if ft is not t and len(ft) > 1 and any(x[0] == m for x in ft) and ft not in todo:
                        todo.append(ft)
        return True

    def single_ok(self, m):
        lo, hi = self.mono(m)
        return lo is None or hi is None or lo <= hi

    def prop_form(self, t, v):
        """sum >= v: tightens the bounds of the monomials; the monomials changed or None"""
        his = []
        tot = 0
        unb = 0
        for m, c in t:
            lo, hi = self.mono(m)
            b = hi if c > 0 else lo
            if b is None:
                unb += 1
                his.append(None)
                if unb > 1:
                    return ()
            else:
                b = c * b
                his.append(b)
                tot += b
        if unb == 0 and tot < v:
            return None
        changed = []
        for (m, c), b in zip(t, his):
            if unb and b is not None:
                continue
            rest = tot - (b if b is not None else 0)
            need = v - rest  # c*m >= need
            if c > 0:
                x = -((-need) // c)
                k = ((m, 1),)
            else:
                # m <= floor(need / c), c negative
                k = ((m, -1),)
                x = -(need // c)
            lo, hi = self.mono(m)
            if k[0][1] == 1:
                if lo is None or x > lo:
                    self.lb[k] = x
                    changed.append(m)
                    if hi is not None and x > hi:
                        return None
            else:
                if hi is None or -x < hi:
                    self.lb[k] = x
                    changed.append(m)
                    if lo is not None and -x < lo:
                        return None
        return changed

    def add_eq(self, p):
        if isinstance(p, int):
            return p == 0
        return self.add_ge(p) and self.add_ge(scale(p, -1))

    def add_ne(self, p):
        if isinstance(p, int):
            return p != 0
        g = 0
        for _, c in p.t:
            g = gcd(g, c)
        if p.k % g:
            return True
        t = tuple((m, c // g) for m, c in p.t)
        v = -(p.k // g)
        q = P(p.t, 0)
        lo, hi = self.bounds(P(t, 0))
        if lo is not None and lo == v:
            if hi == v:
                return False
            return self.add_ge(P(t, -v - 1))
        if hi is not None and hi == v:
            return self.add_ge(P(negt(t), v - 1))
        if self.ge(P(t, -v)):
            return self.add_ge(P(t, -v - 1))
        if self.ge(P(negt(t), v)):
            return self.add_ge(P(negt(t), v - 1))
        self.ne.add((t, v))
        return True

    # ---- queries
    def ge(self, p, deep=True):
        """is p >= 0 entailed?"""
        if isinstance(p, int):
            return p >= 0
        lo, hi = self.bounds(p)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        if not deep:
            return False
        if self.infeasible_with(P(negt(p.t), -p.k - 1)):
            return True
        if self.ne:
            t, v = norm(p)
            if (t, v - 1) in self.ne or (negt(t), 1 - v) in self.ne:
                return self.ge(P(t, 1 - v))
        return False

    def eq(self, p):
        if isinstance(p, int):
            return p == 0
        lo, hi = self.bounds(p)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        if lo == 0 and hi == 0:
            return True
        return self.ge(p) and self.ge(scale(p, -1))

    def neq(self, p):
        """is p != 0 entailed?"""
        if isinstance(p, int):
            return p != 0
        lo, hi = self.bounds(p)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return True
        g = 0
        for _, c in p.t:
            g = gcd(g, c)
        if p.k % g:
            return True
        t = tuple((m, c // g) for m, c in p.t)
        v = -(p.k // g)
        if (t, v) in self.ne or (negt(t), -v) in self.ne:
            return True
        if lo == 0 and hi == 0:
            return False
        return self.ge(add(p, -1)) or self.ge(sub(-1, p))

    def infeasible_with(self, p):
        """facts and p >= 0 have no integer solution (sound, incomplete)"""
        rows = []
        seen_m = set()
        todo = []

        def push(t):
            for m, _ in t:
                if m not in seen_m:
                    seen_m.add(m)
                    todo.append(m)

        t, v = norm(p)
        rows.append((dict(t), v))
        push(t)
        used = set()
        # facts, grouped by monomial
        idx = {}
        for ft, fv in self.lb.items():
            for m, _ in ft:
                idx.setdefault(m, []).append((ft, fv))
        rounds = 0
        while todo and rounds < 40:
            m = todo.pop()
            rounds += 1
            for ft, fv in idx.get(m, ()):
                if ft in used:
                    continue
                used.add(ft)
                rows.append((dict(ft), fv))
                push(ft)
            for i in m:
                for q in ATOMS[i].ax:
                    ft, fv = norm(q)
                    if (ft, fv) in used:
                        continue
                    used.add((ft, fv))
                    rows.append((dict(ft), fv))
                    push(ft)
        box = {}
        for m in seen_m:
            lo, hi = mono_bounds(m)
            if lo is not None:
                rows.append(({m: 1}, lo))
            if hi is not None:
                rows.append(({m: -1}, -hi))
            box[m] = [lo, hi]
        if witness(rows, box):
            return False
        return fm(rows)


def refuted(F):
    """the facts have no integer solution (sound, incomplete): also by how the quotients of one number
    by multiples of each other are related"""
    ds = {}
    for t in F.lb:
        for m, _ in t:
            for i in m:
                a = ATOMS[i]
                if a.key[0] == "div" and isinstance(a.key[2], int):
                    ds.setdefault(a.key[1], set()).add((a.key[2], i))
    G = F.copy()
    for s in ds.values():
        s = sorted(s)
        for k, (c, i) in enumerate(s):
            for d, j in s[k + 1 :]:
                if d % c == 0:
                    x, y = P((((i,), 1),), 0), P((((j,), d // c),), 0)
                    if not G.add_ge(sub(x, y)) or not G.add_ge(sub(add(y, d // c - 1), x)):
                        return True
    return any(G.infeasible_with(P(t, -v)) for t, v in list(G.lb.items())[:1])


STATS = {"fm": 0, "fm_giveup": 0, "witness": 0}


def witness(rows, box):
    """a point that satisfies all rows, found by repairing a corner of the box: elimination cannot
    refute the rows then"""
    multi = []
    for d, v in rows:
        if len(d) == 1:
            ((m, c),) = d.items()
            b = box[m]
            if c > 0:
                x = -(-v // c)
                if b[0] is None or x > b[0]:
                    b[0] = x
            else:
                x = v // c
                if b[1] is None or x < b[1]:
                    b[1] = x
        else:
            multi.append((list(d.items()), v))
    for b in box.values():
        if b[0] is not None and b[1] is not None and b[0] > b[1]:
            return False
    for side in (0, 1):
        x = {}
        for m, b in box.items():
            y = b[side] if b[side] is not None else b[1 - side]
            x[m] = 0 if y is None else y
        for _ in range(12):
            bad = False
            for t, v in multi:
                tot = -v
                for m, c in t:
                    tot += c * x[m]
                if tot >= 0:
                    continue
                bad = True
                # largest coefficients first, rounding down, then the rest rounds up
                for last in (False, True):
                    for m, c in sorted(t, key=lambda z: -abs(z[1])):
                        if tot >= 0:
                            break
                        lo, hi = box[m]
                        if c > 0:
                            k = (-tot) // c if not last else -(tot // c)
                            if hi is not None:
                                k = min(k, hi - x[m])
                            if k > 0:
                                x[m] += k
                                tot += c * k
                        else:
                            k = (-tot) // -c if not last else -(tot // -c)
                            if lo is not None:
                                k = min(k, x[m] - lo)
                            if k > 0:
                                x[m] -= k
                                tot -= c * k
                if tot < 0:
                    break
            if not bad:
                STATS["witness"] += 1
                return True
    return False


def fm(rows):
    """rows: (dict var->coef, v) meaning sum >= v.  True iff infeasible."""
    STATS["fm"] += 1
    cur = {}
    for d, v in rows:
        k = tuple(sorted(d.items()))
        if not k:
            if 0 < v:
                return True
            continue
        if k not in cur or cur[k] < v:
            cur[k] = v
    while cur:
        # contradictory pair?
        for k, v in cur.items():
            u = cur.get(tuple((m, -c) for m, c in k))
            if u is not None and -u < v:
                return True
        # pick variable
        pos = {}
        neg = {}
        for k in cur:
            for m, c in k:
                if c > 0:
                    pos[m] = pos.get(m, 0) + 1
                else:
                    neg[m] = neg.get(m, 0) + 1
        best = None
        for m in set(pos) | set(neg):
            a, b = pos.get(m, 0), neg.get(m, 0)
            cost = a * b - a - b
            if best is None or (cost, m) < best:
                best = (cost, m)
        m = best[1]
        ps, ns, rest = [], [], {}
        for k, v in cur.items():
            c = 0
            for mm, cc in k:
                if mm == m:
                    c = cc
            if c > 0:
                ps.append((k, v, c))
            elif c < 0:
                ns.append((k, v, -c))
            else:
                rest[k] = v
        if len(ps) * len(ns) + len(rest) > 1500:
            STATS["fm_giveup"] += 1
            return False
        for k1, v1, c1 in ps:
            for k2, v2, c2 in ns:
                g = gcd(c1, c2)
                a, b = c2 // g, c1 // g
                d = {}
                for mm, cc in k1:
                    d[mm] = a * cc
                for mm, cc in k2:
                    d[mm] = d.get(mm, 0) + b * cc
                v = a * v1 + b * v2
                items = tuple(sorted((mm, cc) for mm, cc in d.items() if cc))
                if not items:
                    if v > 0:
                        return True
                    continue
                g = 0
                for _, cc in items:
                    g = gcd(g, cc)
                if g > 1:
                    items = tuple((mm, cc // g) for mm, cc in items)
                    v = -((-v) // g)
                if items not in rest or rest[items] < v:
                    rest[items] = v
        cur = rest
    return False


# ---------------------------------------------------------------- division
def div(x, c, F):
    """floor(x / c), c > 0 known; may add facts to F for symbolic c"""
    if F is not None and isinstance(c, P):
        lo, hi = F.bounds(c)
        if lo is not None and lo == hi and lo > 0:
            c = lo
    if isinstance(x, int) and isinstance(c, int):
        return x // c
    if isinstance(c, int):
        if c == 1:
            return x
        A = {}
        B = {}
        for m, co in x.t:
            if co % c == 0:
                A[m] = co // c
            elif co > c:
                A[m] = co // c
                B[m] = co % c
            else:
                B[m] = co
        q, r = divmod(x.k, c)
        Ap = mk(A, q)
        Bp = mk(B, r)
        if isinstance(Bp, int):
            return add(Ap, Bp // c)
        lo, hi = F.bounds(Bp) if F is not None else glob_bounds(Bp)
        if lo is not None and hi is not None and lo // c == hi // c:
            return add(Ap, lo // c)
        if len(Bp.t) == 1 and Bp.t[0][1] == 1 and len(Bp.t[0][0]) == 1:
            a = ATOMS[Bp.t[0][0][0]]
            if a.key[0] == "div" and isinstance(a.key[2], int):
                y, aa = a.key[1], a.key[2]
                return add(Ap, div(add(y, aa * Bp.k), aa * c, F))
        if F is not None and F.ge(Bp) and F.ge(sub(c - 1, Bp)):
            return Ap
        glo, ghi = glob_bounds(Bp)
        key = ("div", Bp, c)
        a = BYKEY.get(key)
        if a is None:
            a = new_atom(key, None if glo is None else glo // c, None if ghi is None else ghi // c)
            a.name = "[%r/%d]" % (Bp, c)
            d = P((((a.id,), 1),), 0)
            a.ax = (sub(Bp, scale(d, c)), sub(add(scale(d, c), c - 1), Bp))
        d = P((((a.id,), 1),), 0)
        return add(Ap, d)
    # symbolic divisor
    if F is not None and F.ge(x) and F.ge(sub(sub(c, 1), x)):
        return 0
    if isinstance(x, P) and len(x.t) == 1 and x.k == 0 and len(c.t) == 1 and c.k == 0 and c.t[0][1] == 1:
        m, co = x.t[0]
        cm = list(m)
        ok = True
        for i in c.t[0][0]:
            if i in cm:
                cm.remove(i)
            else:
                ok = False
        if ok:
            return mk({tuple(cm): co}, 0) if cm else co
    _, hi = glob_bounds(x)
    key = ("div", x, c)
    a = BYKEY.get(key)
    if a is None:
        a = new_atom(key, 0, hi)
        a.name = "[%r/%r]" % (x, c)
        d = P((((a.id,), 1),), 0)
        # for c >= 1, x >= 0 (the caller has established both)
        a.ax = (sub(x, mul(c, d)), sub(add(mul(c, d), sub(c, 1)), x), sub(x, d))
    d = P((((a.id,), 1),), 0)
    if F is not None:
        if F.ge(sub(c, 2)):
            F.add_ge(sub(x, scale(d, 2)))
    return d


def rem(x, c, F):
    if F is not None and isinstance(c, P):
        lo, hi = F.bounds(c)
        if lo is not None and lo == hi and lo > 0:
            c = lo
    q = div(x, c, F)
    r = sub(x, mul(c, q))
    if isinstance(r, P) and isinstance(c, int) and q == div(x, c, None):
        if r.k == 0:
            REMB.setdefault(r.t, (0, c - 1))
        else:
            b = REMB.get(r.t)
            if b is None:
                REMB[r.t] = (-r.k, c - 1 - r.k)
    return r


# ---- equal unknowns
def equalities(F, inputs=False):
    """{atom: polynomial} for the unknowns that the facts make equal to another one (up to a constant)"""
    out = {}
    for t, v in F.lb.items():
        if len(t) != 2 or t[0][1] * t[1][1] != -1 or len(t[0][0]) != 1 or len(t[1][0]) != 1:
            continue
        if F.lb.get(negt(t)) != -v:
            continue
        # t[0] - t[1] (or the other way round) is v
        (a,), s = t[0][0], t[0][1]
        (b,) = t[1][0]
        k = v if s == 1 else -v  # a - b == k
        if ATOMS[a].key[0] == "div" or ATOMS[b].key[0] == "div":
            continue
        if inputs and (ATOMS[a].key[0] != "sym" or ATOMS[b].key[0] != "sym"):
            continue
        if a > b and a not in out:
            out[a] = P((((b,), 1),), k)
        elif a < b and b not in out:
            out[b] = P((((a,), 1),), -k)
    return out


def canon(F, p, eqs=None):
    """p with equal unknowns replaced by one of them"""
    if not isinstance(p, P):
        return p
    if eqs is None:
        eqs = equalities(F)
    if not eqs:
        return p
    memo = {}

    def at(i, depth):
        if i in memo:
            return memo[i]
        a = ATOMS[i]
        memo[i] = r = P((((i,), 1),), 0)
        if i in eqs and depth < 8:
            r = poly(eqs[i], depth + 1)
        elif a.key[0] == "div" and depth < 8:
            x, c = poly(a.key[1], depth + 1), poly(a.key[2], depth + 1)
            if x != a.key[1] or c != a.key[2]:
                r = div(x, c, F) if not isinstance(c, int) or c > 0 else r
        memo[i] = r
        return r

    def poly(q, depth):
        if not isinstance(q, P):
            return q
        tot = q.k
        for m, c in q.t:
            x = c
            for i in m:
                x = mul(x, at(i, depth))
            tot = add(tot, x)
        return tot

    return poly(p, 0)
