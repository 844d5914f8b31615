"""Extreme cells of an abstract state: values of the inputs at which the facts of the state allow it.
An alarm is looked at again with the inputs narrowed to such a cell (a refinement of the partition of
the inputs), where the abstraction loses next to nothing."""
import num as N
from num import P, add, sub


def val(i, env, memo):
    if i in memo:
        return memo[i]
    a = N.ATOMS[i]
    r = None
    if i in env:
        r = env[i]
    elif a.key[0] == "div":
        x, c = form(a.key[1], env, memo), form(a.key[2], env, memo)
        if x is not None and c:
            r = x // c
    memo[i] = r
    return r


def form(p, env, memo):
    if isinstance(p, int):
        return p
    if not isinstance(p, P):
        return None
    s = p.k
    for m, c in p.t:
        x = c
        for i in m:
            v = val(i, env, memo)
            if v is None:
                return None
            x *= v
        s += x
    return s


def possible(F, env):
    """do the facts that the inputs decide hold?"""
    memo = {}
    for t, v in F.lb.items():
        x = form(P(t, 0), env, memo)
        if x is not None and x < v:
            return False
    for t, v in F.ne:
        x = form(P(t, 0), env, memo)
        if x is not None and x == v:
            return False
    return True


def reach(p, v, s):
    """the least value of the input s at which p >= v, for p monotonic in s alone; or None"""
    if not isinstance(p, P) or len(p.t) != 1 or len(p.t[0][0]) != 1 or p.t[0][1] <= 0:
        return None
    i, c = p.t[0][0][0], p.t[0][1]
    w = -((p.k - v) // c)
    if i == s:
        return w
    a = N.ATOMS[i]
    if a.key[0] == "div" and isinstance(a.key[2], int):
        return reach(a.key[1], w * a.key[2], s)
    return None


def atoms_in(forms):
    seen, stack = set(), []

    def add_(p):
        if isinstance(p, P):
            for m, _ in p.t:
                for i in m:
                    if i not in seen:
                        seen.add(i)
                        stack.append(i)
        elif isinstance(p, (tuple, list)):
            for x in p:
                add_(x)
        elif hasattr(p, "op") and hasattr(p, "a"):
            add_(p.a)
            add_(getattr(p, "b", None))

    for f in forms:
        add_(f)
    while stack:
        k = N.ATOMS[stack.pop()].key
        for x in k[1:]:
            add_(x)
    return seen


def values(F, s, atoms, consts):
    p = P((((s,), 1),), 0)
    lo, hi = F.bounds(p)
    out = []

    def put(v):
        if v is not None and v not in out and (lo is None or v >= lo) and (hi is None or v <= hi):
            out.append(v)

    put(lo)
    for c in consts:
        put(c)
    crit = []
    for i in atoms:
        a = N.ATOMS[i]
        if a.key[0] == "div" and isinstance(a.key[2], int):
            r = reach(a.key[1], a.key[2], s)
            if r is not None:
                crit.append(r)
    for r in sorted(set(crit), reverse=True):
        put(r)
    put(hi)
    for r in sorted(set(crit)):
        put(r - 1)
        put(r + 1)
        put(2 * r)
    if lo is not None:
        put(lo + 1)
        put(lo + 2)
    if hi is not None:
        put(hi - 1)
    return out


def symbols(eng, forms):
    atoms = atoms_in(forms)
    syms = sorted(i for i in atoms if N.ATOMS[i].key[0] == "sym")
    n = getattr(eng.spec, "n", None)
    if isinstance(n, P) and len(n.t) == 1 and len(n.t[0][0]) == 1 and n.t[0][0][0] not in syms and N.ATOMS[n.t[0][0][0]].key[0] == "sym":
        syms.append(n.t[0][0][0])
    return syms, atoms


def inputs(eng, st):
    """the numeric inputs on which the state depends"""
    forms = [P(t, 0) for t in st.F.lb] + [P(t, 0) for t, _ in st.F.ne]
    try:
        forms += [v for _, v in eng.flatten(st)[1]]
    except Exception:
        pass
    return symbols(eng, forms)[0]


def cells(eng, st, limit=6):
    """[[(input, value)]]"""
    F = st.F
    forms = [P(t, 0) for t in F.lb] + [P(t, 0) for t, _ in F.ne]
    consts = []
    try:
        lv = eng.flatten(st)[1]
        forms += [v for _, v in lv]
        for _, v in lv:
            if isinstance(v, P):
                b = F.bounds(v)
                if b[0] is not None and b[0] == b[1] and b[0] not in consts:
                    consts.append(b[0])
            elif isinstance(v, int) and not isinstance(v, bool) and v > 1 and v not in consts:
                consts.append(v)
    except Exception:
        pass
    consts = sorted(consts, reverse=True)[:12]
    syms, atoms = symbols(eng, forms)
    out = []
    tries = [0]

    def go(k, F, env):
        if len(out) >= limit or tries[0] > 400:
            return
        if k == len(syms):
            if possible(st.F, env):
                out.append(sorted(env.items()))
            return
        s = syms[k]
        n = 0
        for v in values(F, s, atoms, consts):
            tries[0] += 1
            G = F.copy()
            p = P((((s,), 1),), 0)
            if not G.add_ge(sub(p, v)) or not G.add_ge(sub(v, p)):
                continue
            e2 = dict(env)
            e2[s] = v
            if len(syms) == 1 and not possible(st.F, e2):
                continue
            go(k + 1, G, e2)
            n += 1
            if n >= (24 if len(syms) == 1 else 4 if len(syms) < 4 else 2):
                break

    go(0, F, {})
    return out


def show(pins):
    return ", ".join("%s = %d" % (N.ATOMS[i].name, v) for i, v in pins)
