"""Models of the library functions whose MIR is below the level of the analysis (raw pointers of
slice iterators, formatting, allocation), and, in token mode, of the operations of NominalString."""
import itertools, re
import num as N
from num import P, add, sub, mul
from engine import (
    Adt, Arr, Ptr, Sl, Str, NS, HS, SymE, Op, FnV, Cond, ItSl, ItVal, ItZip, ItMap, ItChars, UNINIT, UNIT,
    Undecided, Split, Panic, Infeasible, Mismatch, Dec, c_ge, c_eq, c_not, c_and, c_or, c_eval, c_assume,
)


BIRTH = itertools.count(1)  # strings are consumed in the order in which they were created


def tyof(eng, i):
    return eng.prog.types[i]


def some(v, rty=None):
    return Adt(1, (v,), rty)


def none(rty=None):
    return Adt(0, (), rty)


def ok(v, rty):
    return Adt(0, (v,), rty)


def err(v, rty):
    return Adt(1, (v,), rty)


def oom_err(eng, rty):
    t = tyof(eng, rty)
    e = t["v"][1]["f"][0][1]
    return Adt(1, (Adt(0, (), e),), rty)


class Models:
    def __init__(self, mode="tok"):
        self.mode = mode
        self.cache = {}
        self.PY = PY
        self.PYSTEP = pystep
        self.squash = squash
        self.copy = copy_model
        self.virtual = m_event
        self.exact = dict(EXACT)
        self.regex = list(REGEX)
        if mode == "tok":
            self.exact.update(TOK)
        else:
            self.exact.update(BYTE)

    def find(self, rpath, callee):
        h = self.cache.get(rpath, 0)
        if h != 0:
            return h
        h = self.exact.get(rpath)
        if h is None:
            for r, f in self.regex:
                if r.match(rpath):
                    h = f
                    break
        self.cache[rpath] = h
        return h


# ------------------------------------------------------------------ tokens
def ns_toks(v):
    base = () if v.base is None else (("base", v.base),)
    return v.front + base + v.back


def tok_nonempty(t):
    return t[0] == "c" or (t[0] == "base" and t[1] is not None and t[1][0] not in ("maybe", "o"))


def getns(eng, st, p):
    v = p
    loc = None
    while isinstance(v, Ptr):
        loc = v
        v = eng.load(st, v)
    if not isinstance(v, NS):
        raise Undecided("a string of unknown content (%r)" % (v,))
    return loc, v


MAXTOK = 400


def putns(eng, st, loc, v):
    if len(v.front) + len(v.back) > MAXTOK:
        raise Undecided("a string that grows without a loop of the program")
    eng.store(st, loc, v)


def pushed(eng, st, loc, new, old, dest, ret, rty):
    """a push: Ok, and without alloc possibly Err; what it was for is lost then"""
    if old.base == ("dead",):
        return ok(UNIT, rty)
    if eng.oom and not fits(new):
        c = st.copy()
        if ("oom",) not in c.ev:
            c.ev = c.ev + (("oom",),)
        for k, v in list(c.mem.items()):
            c.mem[k] = kill(v)
        if eng.spec is not None:
            c.ghost = eng.spec.oom_ghost()
        eng.store(c, dest, oom_err(eng, rty))
        if ret is not None:
            eng.goto(c, ret)
            eng.later(c)
        if sum(least(t) for t in ns_toks(new)) > 62:
            raise Infeasible()  # it fails
    putns(eng, st, loc, new)
    return ok(UNIT, rty)


def kill(v):
    """the strings of a state in which a push failed"""
    if isinstance(v, NS):
        return NS((), ("dead",), (), v.rev)
    if isinstance(v, Adt) and any(isinstance(x, (NS, Adt)) for x in v.f):
        return Adt(v.v, tuple(kill(x) for x in v.f), v.ty)
    return v


def char_len(x):
    """most bytes that a character takes"""
    if isinstance(x, int):
        return len(chr(x).encode())
    if isinstance(x, P) and x.k == 0 and len(x.t) == 1 and x.t[0][1] == 1 and len(x.t[0][0]) == 1:
        a = N.ATOMS[x.t[0][0][0]]
        if a.key[0] == "sel":
            return max(char_len(y) for y in a.key[1])
    return 4


def tok_len(t):
    if t[0] == "c":
        return char_len(t[1])
    if t[0] == "sel":
        return max(sum(tok_len(y) for y in x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) else tok_len(x) for x in t[1])
    return 1000


def fits(v):
    return sum(tok_len(t) for t in ns_toks(v)) <= 62


def least(t):
    """fewest bytes that a token takes"""
    if t[0] == "c":
        x = t[1]
        if isinstance(x, int):
            return len(chr(x).encode())
        if isinstance(x, P) and x.k == 0 and len(x.t) == 1 and x.t[0][1] == 1 and len(x.t[0][0]) == 1:
            a = N.ATOMS[x.t[0][0][0]]
            if a.key[0] == "sel":
                return min(least(("c", y)) for y in a.key[1])
        return 1
    if t[0] == "sel":
        return min(sum(least(y) for y in x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) else 0 for x in t[1])
    return 0


def m_ns_new(eng, st, callee, args, dest, ret, rty):
    return NS((), None, (), next(BIRTH))


def m_push(eng, st, callee, args, dest, ret, rty):
    loc, v = getns(eng, st, args[0])
    ch = args[1]
    new = NS(v.front, v.base, v.back + (("c", ch),), v.rev)
    return pushed(eng, st, loc, new, v, dest, ret, rty)


def m_push_front(eng, st, callee, args, dest, ret, rty):
    loc, v = getns(eng, st, args[0])
    new = NS((("c", args[1]),) + v.front, v.base, v.back, v.rev)
    return pushed(eng, st, loc, new, v, dest, ret, rty)


def str_toks(eng, st, s):
    n = 0
    while isinstance(s, Ptr):
        s = eng.load(st, s)
        n += 1
    if isinstance(s, NS):
        return ns_toks(s)
    if isinstance(s, HS):
        return s.toks
    if isinstance(s, Str) and s.sl is None:
        return s.toks
    if isinstance(s, Str):
        raise Undecided("characters of a byte slice")
    raise Undecided("characters of %r" % (s,))


def m_push_str(eng, st, callee, args, dest, ret, rty):
    loc, v = getns(eng, st, args[0])
    tk = str_toks(eng, st, args[1])
    if not tk:
        return ok(UNIT, rty)
    new = NS(v.front, v.base, v.back + tk, v.rev)
    return pushed(eng, st, loc, new, v, dest, ret, rty)


def m_from_char(eng, st, callee, args, dest, ret, rty):
    return NS((), None, (("c", args[0]),), next(BIRTH))


def m_from_str(eng, st, callee, args, dest, ret, rty):
    tk = str_toks(eng, st, args[0])
    if eng.oom:
        if any(t[0] == "base" for t in tk):
            c = st.copy()
            eng.res.panics.append(("a string that is too long to be stored inline", eng.where(c), c))
        else:
            n = eng.strlen(st, Str(tk))
            if not Dec(st.F).ge(62, n):
                raise Panic("a string that is too long to be stored inline")
    return NS((), None, tk, next(BIRTH))


def m_deref(eng, st, callee, args, dest, ret, rty):
    loc, v = getns(eng, st, args[0])
    return Str(ns_toks(v))


def m_is_inline(eng, st, callee, args, dest, ret, rty):
    return Cond("ge", sub(N.fresh("is_inline", 0, 1), 1))


def m_ns_clone(eng, st, callee, args, dest, ret, rty):
    return getns(eng, st, args[0])[1]


# ------------------------------------------------------------------ str
def m_str_len(eng, st, callee, args, dest, ret, rty):
    s = args[0]
    if isinstance(s, Str):
        s = named_base(s)
        if any(t[0] == "base" for t in s.toks):
            return N.fresh("strlen", 1 if any(tok_nonempty(t) for t in s.toks) else 0, (1 << 63) - 1)
        return eng.strlen(st, s)
    if isinstance(s, HS):
        return eng.strlen(st, Str(s.toks))
    raise Undecided("len of %r" % (s,))


def named_base(s):
    """a string of unknown content with a name is a token"""
    if s.sl is None and any(t[0] == "base" and t[1] is not None and t[1][0] == "o" for t in s.toks):
        return Str(tuple(t[1] if t[0] == "base" and t[1] is not None and t[1][0] == "o" else t for t in s.toks))
    return s


def m_str_is_empty(eng, st, callee, args, dest, ret, rty):
    s = args[0]
    if isinstance(s, Str):
        s = named_base(s)
    if isinstance(s, Str) and s.sl is None:
        if not s.toks:
            return True
        if any(tok_nonempty(t) for t in s.toks):
            return False
        if any(t[0] == "base" for t in s.toks):
            raise Undecided("emptiness of a string")
    return c_eq(m_str_len(eng, st, callee, args, dest, ret, rty), 0)


def m_as_bytes(eng, st, callee, args, dest, ret, rty):
    s = args[0]
    if isinstance(s, Str):
        try:
            return eng.str_bytes(st, s)
        except Undecided:
            n = named_base(s)
            if any(t[0] == "base" for t in n.toks):
                raise
            # a name for them: only their number and comparisons are known
            return Sl(Ptr(("strb", s.toks), ()), 0, eng.strlen(st, n))
    raise Undecided("bytes of %r" % (s,))


def named_bytes(eng, st, v):
    while isinstance(v, Ptr):
        v = eng.load(st, v)
    return v.p.root[1] if isinstance(v, Sl) and isinstance(v.p.root, tuple) and v.p.root[0] == "strb" and v.start == 0 else None


def m_slice_order(eng, st, callee, args, dest, ret, rty):
    """UTF-8 is in the order of its bytes"""
    a, b = named_bytes(eng, st, args[0]), named_bytes(eng, st, args[1])
    if a is None or b is None:
        if a is not None or b is not None:
            raise Undecided("bytes of a string of unknown content compared")
        return NotImplemented
    o = callee.get("rpath", callee["path"]).split("::")[-1]
    if o in ("eq", "ne"):
        return (order_of(st, a, b) == 1) == (o == "eq")
    return m_str_cmp(eng, st, callee, [Str(a), Str(b)], dest, ret, rty)


def str_order(eng, st, a, b):
    """index of the Ordering of two strings: 0 less, 1 equal, 2 greater"""
    while isinstance(a, Ptr):
        a = eng.load(st, a)
    while isinstance(b, Ptr):
        b = eng.load(st, b)
    ta, tb = skey(eng, st, a), skey(eng, st, b)
    return order_of(st, ta, tb)


def pure_bytes(t):
    """the bytes, if that is all there is"""
    return () if not t else t[0][1:] if len(t) == 1 and t[0][0] == "bytes" else None


def order_of(st, ta, tb):
    if ta == tb:
        return 1
    if all(t[0] == "c" and isinstance(t[1], int) for t in ta + tb):
        x, y = [t[1] for t in ta], [t[1] for t in tb]
        return 0 if x < y else 2 if x > y else 1
    fa, fb = pure_bytes(ta), pure_bytes(tb)
    if fa is not None and fb is not None:
        if fb[: len(fa)] == fa:
            return 0
        if fa[: len(fb)] == fb:
            return 2
    flip = repr(ta) > repr(tb)
    name = ("cmp", tb, ta) if flip else ("cmp", ta, tb)
    v = st.F.en.get(name)
    if v is None:

        def opt(i):
            def f(F):
                F.en[name] = i
                return True

            return f

        differ = fa is not None and fb is not None and len(fa) != len(fb)
        raise Split([opt(i) for i in range(3) if not differ or i != 1])
    return 2 - v if flip else v


def m_str_eq(eng, st, callee, args, dest, ret, rty):
    return str_order(eng, st, args[0], args[1]) == 1


def m_str_ne(eng, st, callee, args, dest, ret, rty):
    return str_order(eng, st, args[0], args[1]) != 1


def skey(eng, st, s):
    """the content of a str as a token tuple"""
    if isinstance(s, Str) and s.sl is not None:
        return (("bytes",) + slice_vals(eng, st, s.sl),)
    return str_toks(eng, st, s)


def slice_vals(eng, st, sl):
    if not isinstance(sl, Sl):
        raise Undecided("bytes of %r" % (sl,))
    if not isinstance(sl.ln, int) or not isinstance(sl.start, int):
        raise Undecided("a slice of symbolic length")
    v = eng.load(st, sl.p)
    if not isinstance(v, Arr):
        raise Undecided("elements of %r" % (v,))
    if sl.start < 0 or sl.start + sl.ln > len(v.e):
        raise Mismatch("a slice reaches outside of its buffer")
    return v.e[sl.start : sl.start + sl.ln]


def m_str_cmp(eng, st, callee, args, dest, ret, rty):
    i = str_order(eng, st, args[0], args[1])
    t = tyof(eng, rty)
    if t["k"] == "adt" and t["path"].endswith("Option"):
        return some(Adt(i, (), rty_inner(eng, rty)), rty)
    return Adt(i, (), rty)


def m_from_u32(eng, st, callee, args, dest, ret, rty):
    D, x = Dec(st.F), args[0]
    if D.lt(x, 0xD800):
        return some(x, rty)
    if D.lt(x, 0xE000) or not D.lt(x, 0x110000):
        return none(rty)
    return some(x, rty)


def m_chars(eng, st, callee, args, dest, ret, rty):
    D, tk = Dec(st.F), []
    for t in skey(eng, st, args[0]):
        if t[0] == "bytes":
            # a byte below 128 is a character of its own
            for b in t[1:]:
                if b is UNINIT or isinstance(b, tuple) or not D.lt(b, 128):
                    raise Undecided("characters of an unknown string")
                tk.append(("c", b))
        elif t[0] == "c":
            tk.append(t)
        else:
            raise Undecided("characters of an unknown string")
    tk = tuple(tk)
    return ItChars(tk, 0, len(tk))


def m_edge(first):
    """str::starts_with and ends_with of a character"""

    def m(eng, st, callee, args, dest, ret, rty):
        s, c = args
        while isinstance(s, Ptr):
            s = eng.load(st, s)
        if not isinstance(c, (int, N.P)) or isinstance(c, bool):
            raise Undecided("a pattern that is not a character")
        if isinstance(s, Str) and s.sl is not None:
            tk = m_chars(eng, st, callee, [s], dest, ret, rty).toks
        else:
            tk = str_toks(eng, st, s)
        if not tk:
            return False
        t = tk[0 if first else -1]
        if t[0] == "bytes" and len(t) > 1:
            t = ("c", t[1 if first else -1])
            if not Dec(st.F).lt(t[1], 128):
                raise Undecided("the character at the edge of a string")
        if t[0] != "c":
            raise Undecided("the character at the edge of an unknown string")
        return c_eq(t[1], c)

    return m


def m_trim(end):
    """str::trim_end_matches and trim_start_matches of an ASCII character"""

    def m(eng, st, callee, args, dest, ret, rty):
        s, c = args
        while isinstance(s, Ptr):
            s = eng.load(st, s)
        if not isinstance(c, int) or isinstance(c, bool) or c > 127 or not isinstance(s, Str):
            raise Undecided("a pattern that is not an ASCII character")
        sl, D = eng.str_bytes(st, s), Dec(st.F)
        if not isinstance(sl.ln, int):
            raise Undecided("trimming a string whose length is not known")
        i, n = sl.start, sl.ln
        while n and D.eq(eng.load(st, eng.index(st, Sl(sl.p, i, n), n - 1 if end else 0)), c):
            n -= 1
            i = i if end else add(i, 1)
        return eng.bytes_str(st, Sl(sl.p, i, n))

    return m


# ------------------------------------------------------------------ iterators
def ld(eng, st, p):
    if not isinstance(p, Ptr):
        raise Undecided("iterator behind %r" % (p,))
    return p, eng.load(st, p)


def rty_inner(eng, rty):
    """T of Option<T>"""
    t = tyof(eng, rty)
    return t["v"][1]["f"][0][1]


def elem(eng, st, sl, i):
    return eng.index(st, sl, i)


def it_next(eng, st, v, back=False):
    """(has, element or None, new iterator)"""
    D = Dec(st.F)
    if isinstance(v, ItSl):
        if not D.lt(v.i, v.j):
            return False, None, v
        if back:
            j = sub(v.j, 1)
            return True, elem(eng, st, v.sl, j), ItSl(v.sl, v.i, j)
        return True, elem(eng, st, v.sl, v.i), ItSl(v.sl, add(v.i, 1), v.j)
    if isinstance(v, ItVal):
        if not D.lt(v.i, v.j):
            return False, None, v
        if back:
            j = sub(v.j, 1)
            e = v.e[j] if isinstance(j, int) else eng.select(st, v.e, j)
            return True, e, ItVal(v.e, v.i, j)
        e = v.e[v.i] if isinstance(v.i, int) else eng.select(st, v.e, v.i)
        return True, e, ItVal(v.e, add(v.i, 1), v.j)
    if isinstance(v, ItChars):
        if not D.lt(v.i, v.j):
            return False, None, v
        if back:
            return True, v.toks[v.j - 1][1], ItChars(v.toks, v.i, v.j - 1)
        return True, v.toks[v.i][1], ItChars(v.toks, v.i + 1, v.j)
    if isinstance(v, ItMap):
        if v.kind == "rev":
            h, e, it = it_next(eng, st, v.it, not back)
            return h, e, ItMap("rev", it)
        if v.kind == "copied":
            h, e, it = it_next(eng, st, v.it, back)
            return h, eng.load(st, e) if h and isinstance(e, Ptr) else e, ItMap("copied", it)
        if v.kind == "enum" and not back:
            h, e, it = it_next(eng, st, v.it)
            return h, Adt(0, (v.n, e)) if h else None, ItMap("enum", it, add(v.n, 1) if h else v.n)
    if isinstance(v, ItZip) and not back:
        h, a, na = it_next(eng, st, v.a)
        if not h:
            return False, None, ItZip(na, v.b)
        h, b, nb = it_next(eng, st, v.b)
        if not h:
            return False, None, ItZip(na, nb)
        return True, Adt(0, (a, b)), ItZip(na, nb)
    raise Undecided("next of %r" % (type(v).__name__,))


def m_next(eng, st, callee, args, dest, ret, rty):
    p, v = ld(eng, st, args[0])
    if not isinstance(v, (ItSl, ItVal, ItChars, ItZip)):
        return NotImplemented
    h, e, nv = it_next(eng, st, v)
    eng.store(st, p, nv)
    return some(e, rty) if h else none(rty)


def m_next_back(eng, st, callee, args, dest, ret, rty):
    p, v = ld(eng, st, args[0])
    if not isinstance(v, (ItSl, ItVal, ItChars, ItZip)):
        return NotImplemented
    h, e, nv = it_next(eng, st, v, True)
    eng.store(st, p, nv)
    return some(e, rty) if h else none(rty)


def m_it_clone(eng, st, callee, args, dest, ret, rty):
    p, v = ld(eng, st, args[0])
    return v if isinstance(v, (ItSl, ItVal, ItChars, ItZip)) else NotImplemented


def m_nth(eng, st, callee, args, dest, ret, rty):
    p, v = ld(eng, st, args[0])
    if isinstance(v, ItSl):
        n = args[1]
        if Dec(st.F).lt(add(v.i, n), v.j):
            i = add(v.i, n)
            eng.store(st, p, ItSl(v.sl, add(i, 1), v.j))
            return some(elem(eng, st, v.sl, i), rty)
        eng.store(st, p, ItSl(v.sl, v.j, v.j))
        return none(rty)
    raise Undecided("nth of %r" % (type(v).__name__,))


def it_len(v):
    if isinstance(v, (ItSl, ItVal)):
        return sub(v.j, v.i)
    raise Undecided("length of an iterator")


def m_it_len(eng, st, callee, args, dest, ret, rty):
    p, v = ld(eng, st, args[0])
    if not isinstance(v, (ItSl, ItVal)):
        return NotImplemented
    return it_len(v)


def m_size_hint(eng, st, callee, args, dest, ret, rty):
    p, v = ld(eng, st, args[0])
    o = tyof(eng, rty)["f"][1]
    if isinstance(v, ItChars):
        n = 0
        for t in v.toks[v.i : v.j]:
            n = add(n, eng.charlen(st, t[1]))
        if not isinstance(n, int):
            raise Undecided("the length of characters that are not known")
        return Adt(0, ((n + 3) // 4, some(n, o)))
    if not isinstance(v, (ItSl, ItVal)):
        return NotImplemented
    n = it_len(v)
    o = tyof(eng, rty)["f"][1]
    return Adt(0, (n, some(n, o)))


def m_as_slice(eng, st, callee, args, dest, ret, rty):
    p, v = ld(eng, st, args[0])
    if isinstance(v, ItSl):
        return Sl(v.sl.p, add(v.sl.start, v.i), sub(v.j, v.i))
    return NotImplemented


def to_slice(eng, st, v):
    if isinstance(v, Sl):
        return v
    if isinstance(v, Ptr):
        a = eng.load(st, v)
        if isinstance(a, Arr):
            return Sl(v, 0, len(a.e))
    raise Undecided("slice from %r" % (v,))


def m_iter(eng, st, callee, args, dest, ret, rty):
    sl = to_slice(eng, st, args[0])
    return ItSl(sl, 0, sl.ln)


def m_arr_into_iter(eng, st, callee, args, dest, ret, rty):
    a = args[0]
    if not isinstance(a, Arr):
        raise Undecided("into_iter of %r" % (a,))
    return ItVal(a.e, 0, len(a.e))


def sized_it(eng, st, v, ty):
    """an iterator of the library as one of the analysis, or None"""
    if isinstance(v, (ItSl, ItVal, ItZip, ItChars, ItMap)):
        return v
    t = tyof(eng, ty)
    if not isinstance(v, Adt) or t.get("k") != "adt":
        return None
    name = t["path"].split("::")[-1]
    fs = t["v"][0]["f"]
    if name in ("Bytes", "Copied", "Cloned", "Rev"):
        it = sized_it(eng, st, v.f[0], fs[0][1])
        if it is None or name == "Bytes":
            return it
        return ItMap("rev" if name == "Rev" else "copied", it)
    if t["path"] in ("core::slice::Iter", "core::slice::IterMut") and len(v.f) > 1:
        a, b = v.f[:2]
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root and a.path[:-1] == b.path[:-1] and a.path and a.path[-1][0] == b.path[-1][0] == "i":
            i, j = a.path[-1][1], b.path[-1][1]
            return ItSl(Sl(Ptr(a.root, a.path[:-1]), 0, j), i, j)
        return None
    if name == "Enumerate":
        it = sized_it(eng, st, v.f[0], fs[0][1])
        return it and ItMap("enum", it, v.f[1])
    if name in ("Take", "Skip") and not (isinstance(v.f[1], int) and v.f[1] < 0):
        it = sized_it(eng, st, v.f[0], fs[0][1])
        inner = it
        copied = isinstance(it, ItMap) and it.kind == "copied"
        if copied:
            inner = it.it
        if not isinstance(inner, (ItSl, ItVal)):
            return None
        ln = sub(inner.j, inner.i)
        n = v.f[1] if Dec(st.F).lt(v.f[1], ln) else ln
        i, j = (inner.i, add(inner.i, n)) if name == "Take" else (add(inner.i, n), inner.j)
        inner = ItSl(inner.sl, i, j) if isinstance(inner, ItSl) else ItVal(inner.e, i, j)
        return ItMap("copied", inner) if copied else inner
    return None


def m_zip(eng, st, callee, args, dest, ret, rty):
    a, b = args
    ts = callee.get("rargs") or callee["args"]
    if isinstance(a, Adt):
        a = sized_it(eng, st, a, ts[0]) or a
    if isinstance(b, Adt):
        b = sized_it(eng, st, b, ts[1]) or b
    if isinstance(b, (Sl, Ptr)):
        try:
            sl = to_slice(eng, st, b)
            b = ItSl(sl, 0, sl.ln)
        except Undecided:
            pass
    elif isinstance(b, Arr):
        b = ItVal(b.e, 0, len(b.e))
    if isinstance(a, (ItSl, ItVal, ItZip, ItMap, ItChars)) and isinstance(b, (ItSl, ItVal, ItZip, ItMap, ItChars)):
        return ItZip(a, b)
    raise Undecided("zip of %s and %s" % (type(a).__name__, type(b).__name__))


# ------------------------------------------------------------------ slices
def bounds_of_range(eng, st, r, ln, kind):
    """(start, end, valid)"""
    if kind == "Range":
        s, e = r.f
    elif kind == "RangeFrom":
        s, e = r.f[0], ln
    elif kind == "RangeTo":
        s, e = 0, r.f[0]
    elif kind == "RangeFull":
        s, e = 0, ln
    elif kind == "RangeInclusive":
        s, e = r.f[0], add(r.f[1], 1)
        ex = r.f[2]
        if ex is not False:
            raise Undecided("exhausted range")
    elif kind == "RangeToInclusive":
        s, e = 0, add(r.f[0], 1)
    else:
        raise Undecided("range %s" % kind)
    D = Dec(st.F)
    v = D.ge(e, s) and D.ge(ln, e)
    return s, e, v


def m_range_index(eng, st, callee, args, dest, ret, rty, mode="index"):
    m = re.match(r"<(?:core::ops::|core::range::)?(\w+)(?:<.*>)? as ", callee.get("rpath", callee["path"]))
    kind = m.group(1)
    r, s = args
    if kind == "usize":
        i = r
        sl = to_slice(eng, st, s)
        if mode == "unchecked":
            return eng.index(st, sl, i)
        D = Dec(st.F)
        okk = D.lt(i, sl.ln)
        if mode == "get":
            return some(eng.index(st, sl, i), rty) if okk else none(rty)
        if not okk:
            raise Panic("index out of bounds")
        return eng.index(st, sl, i)
    if isinstance(s, Str) and s.sl is None:
        raise Undecided("substring")
    if isinstance(s, Str):
        sl = s.sl
        raise Undecided("substring")
    sl = to_slice(eng, st, s)
    a, b, v = bounds_of_range(eng, st, r, sl.ln, kind)
    if not v:
        if mode == "get":
            return none(rty)
        if mode == "unchecked":
            raise Mismatch("unchecked access to a slice out of its bounds")
        raise Panic("slice range out of bounds")
    x = Sl(sl.p, add(sl.start, a), sub(b, a))
    return some(x, rty) if mode == "get" else x


def m_range_get(*a):
    return m_range_index(*a, mode="get")


def m_range_unchecked(*a):
    return m_range_index(*a, mode="unchecked")


def range_val(eng, st, r, ln, ty):
    t = tyof(eng, ty)
    return bounds_of_range(eng, st, r, ln, t["path"].split("::")[-1])


def m_copy_within(eng, st, callee, args, dest, ret, rty):
    sl = to_slice(eng, st, args[0])
    r, d = args[1], args[2]
    s, e, v = range_val(eng, st, r, sl.ln, callee["rargs"][-1])
    if not v:
        raise Panic("copy_within range out of bounds")
    n = sub(e, s)
    if not Dec(st.F).ge(sub(sl.ln, n), d):
        raise Panic("copy_within destination out of bounds")
    move(eng, st, sl.p, add(sl.start, s), sl.p, add(sl.start, d), n, strict=False)
    return UNIT


def m_rotate(left):
    def f(eng, st, callee, args, dest, ret, rty):
        sl, k = to_slice(eng, st, args[0]), args[1]
        if not isinstance(k, int):
            raise Undecided("rotation by a symbolic number")
        es = slice_vals(eng, st, sl)
        if k > len(es):
            raise Panic("rotation by more than the length")
        k = k if left else len(es) - k
        all_ = list(eng.load(st, sl.p).e)
        all_[sl.start : sl.start + len(es)] = es[k:] + es[:k]
        eng.store(st, sl.p, Arr(tuple(all_)))
        return UNIT

    return f


def m_reverse(eng, st, callee, args, dest, ret, rty):
    sl = to_slice(eng, st, args[0])
    es = slice_vals(eng, st, sl)
    all_ = list(eng.load(st, sl.p).e)
    all_[sl.start : sl.start + len(es)] = es[::-1]
    eng.store(st, sl.p, Arr(tuple(all_)))
    return UNIT


def move(eng, st, sp, si, dp, di, n, strict=True):
    """n elements from sp[si..] to dp[di..]"""
    if not all(isinstance(x, int) for x in (si, di, n)):
        raise Undecided("copy of a symbolic number of elements")
    src = eng.load(st, sp)
    if not isinstance(src, Arr):
        raise Undecided("copy from %r" % (src,))
    dst = eng.load(st, dp)
    if not isinstance(dst, Arr):
        raise Undecided("copy to %r" % (dst,))
    if n == 0:
        return
    if si < 0 or si + n > len(src.e):
        raise Mismatch("a copy reads outside of its source (%d elements from %d of %d)" % (n, si, len(src.e)))
    if di < 0 or di + n > len(dst.e):
        raise Mismatch("a copy writes outside of its destination (%d elements to %d of %d)" % (n, di, len(dst.e)))
    es = list(dst.e)
    es[di : di + n] = src.e[si : si + n]
    eng.store(st, dp, Arr(tuple(es)))


def split_ptr(p):
    if isinstance(p, Sl):
        return p.p, p.start
    if isinstance(p, Ptr) and p.path and p.path[-1][0] == "i":
        return Ptr(p.root, p.path[:-1]), p.path[-1][1]
    if isinstance(p, Ptr):
        return p, 0
    raise Undecided("pointer %r" % (p,))


def as_elem_ptr(eng, st, p):
    """a pointer to an array's storage is a pointer to its first element"""
    base, i = split_ptr(p)
    return base, i


def copy_model(eng, st, src, dst, n):
    if isinstance(n, int) and n == 0:
        return
    if isinstance(src, Str):
        src = eng.str_bytes(st, src)
    sp, si = as_elem_ptr(eng, st, src)
    dp, di = as_elem_ptr(eng, st, dst)
    sv, dv = eng.load(st, sp), eng.load(st, dp)
    if not isinstance(sv, Arr) or not isinstance(dv, Arr):
        if n == 1:
            eng.store(st, dst, eng.load(st, src))
            return
        raise Undecided("raw copy")
    move(eng, st, sp, si, dp, di, n)


def m_copy(eng, st, callee, args, dest, ret, rty):
    copy_model(eng, st, args[0], args[1], args[2])
    return UNIT


def m_compare_bytes(eng, st, callee, args, dest, ret, rty):
    a, b, n = args
    if not isinstance(n, int):
        raise Undecided("comparison of a symbolic number of bytes")
    if n == 0:
        return 0
    (ap, ai), (bp, bi) = as_elem_ptr(eng, st, a), as_elem_ptr(eng, st, b)
    x, y = eng.load(st, ap), eng.load(st, bp)
    if not isinstance(x, Arr) or not isinstance(y, Arr) or not isinstance(ai, int) or not isinstance(bi, int):
        raise Undecided("comparison of memory")
    if ai + n > len(x.e) or bi + n > len(y.e):
        raise Mismatch("compares bytes outside of the buffer")
    D = Dec(st.F)
    for k in range(n):
        u, v = x.e[ai + k], y.e[bi + k]
        if u is UNINIT or v is UNINIT:
            raise Mismatch("compares bytes that were never written")
        if not isinstance(u, (int, N.P)) or not isinstance(v, (int, N.P)):
            raise Undecided("comparison of %s bytes" % type(u).__name__)
        if D.eq(u, v):
            continue
        return -1 if D.lt(u, v) else 1
    return 0


def m_exact_div(eng, st, callee, args, dest, ret, rty):
    a, b = args
    if not isinstance(b, int) or b <= 0:
        raise Undecided("exact_div by %r" % (b,))
    return N.div(a, b)


def m_copy_to(eng, st, callee, args, dest, ret, rty):
    copy_model(eng, st, args[0], args[1], args[2])
    return UNIT


def m_copy_from(eng, st, callee, args, dest, ret, rty):
    copy_model(eng, st, args[1], args[0], args[2])
    return UNIT


def m_copy_from_slice(eng, st, callee, args, dest, ret, rty):
    d, s = to_slice(eng, st, args[0]), to_slice(eng, st, args[1])
    if not Dec(st.F).eq(d.ln, s.ln):
        raise Panic("copy_from_slice with different lengths")
    move(eng, st, s.p, s.start, d.p, d.start, s.ln)
    return UNIT


def m_write_copy_of_slice(eng, st, callee, args, dest, ret, rty):
    m_copy_from_slice(eng, st, callee, args, dest, ret, rty)
    return args[0]


def m_fill(eng, st, callee, args, dest, ret, rty):
    d = to_slice(eng, st, args[0])
    if not isinstance(d.ln, int) or not isinstance(d.start, int):
        raise Undecided("fill")
    v = eng.load(st, d.p)
    es = list(v.e)
    es[d.start : d.start + d.ln] = [args[1]] * d.ln
    eng.store(st, d.p, Arr(tuple(es)))
    return UNIT


def m_from_raw_parts(eng, st, callee, args, dest, ret, rty):
    p, n = args
    base, i = split_ptr(p)
    v = eng.load(st, base)
    if not isinstance(v, Arr):
        raise Undecided("from_raw_parts of %r" % (type(v).__name__,))
    # the reference must cover initialised elements of the allocation
    D = Dec(st.F)
    if not (D.ge(i) and D.ge(n) and D.ge(len(v.e), add(i, n))):
        raise Mismatch("a slice is made from bytes outside of the buffer")
    if isinstance(i, int) and isinstance(n, int):
        t = tyof(eng, rty)
        et = tyof(eng, tyof(eng, t["p"])["e"])
        if et["k"] in ("int", "char", "bool"):
            for k in range(i, i + n):
                if v.e[k] is UNINIT:
                    raise Mismatch("a slice is made from bytes that were never written (byte %d of %d..%d)" % (k, i, i + n))
    return Sl(base, i, n)


def m_from_utf8_unchecked(eng, st, callee, args, dest, ret, rty):
    return eng.bytes_str(st, to_slice(eng, st, args[0]))


def m_len_utf8(eng, st, callee, args, dest, ret, rty):
    return eng.charlen(st, args[0])


def enc_byte(ch, n, i):
    if isinstance(ch, int):
        return chr(ch).encode()[i]
    a = N.new_atom(("enc", ch, n, i), 0, 255, "utf8(%r)[%d/%d]" % (ch, i, n))
    return P((((a.id,), 1),), 0)


def m_encode_utf8(eng, st, callee, args, dest, ret, rty):
    ch = args[0]
    d = to_slice(eng, st, args[1])
    n = eng.charlen(st, ch)
    if not Dec(st.F).ge(d.ln, n):
        raise Panic("encode_utf8 buffer too small")
    for i in range(n):
        eng.store(st, eng.index(st, d, i), enc_byte(ch, n, i))
    return eng.bytes_str(st, Sl(d.p, d.start, n))


# ------------------------------------------------------------------ memory
def m_uninit(eng, st, callee, args, dest, ret, rty):
    t = tyof(eng, rty)
    # MaybeUninit<[T; N]> is kept as an array of uninitialised elements
    inner = t["args"][0] if t.get("args") else None
    if inner is not None and isinstance(inner, int):
        it = tyof(eng, inner)
        if it["k"] == "array":
            return Arr((UNINIT,) * it["len"])
    return UNINIT


def m_identity(eng, st, callee, args, dest, ret, rty):
    return args[0]


def m_assume_init(eng, st, callee, args, dest, ret, rty):
    if args[0] is UNINIT:
        raise Mismatch("assume_init of a value that was never written")
    return args[0]


def m_mu_write(eng, st, callee, args, dest, ret, rty):
    eng.store(st, args[0], args[1])
    return args[0]


def m_ptr_read(eng, st, callee, args, dest, ret, rty):
    return eng.load(st, args[0])


def m_ptr_write(eng, st, callee, args, dest, ret, rty):
    eng.store(st, args[0], args[1])
    return UNIT


def m_replace(eng, st, callee, args, dest, ret, rty):
    v = eng.load(st, args[0])
    eng.store(st, args[0], args[1])
    return v


def m_swap(eng, st, callee, args, dest, ret, rty):
    a = eng.load(st, args[0])
    b = eng.load(st, args[1])
    eng.store(st, args[0], b)
    eng.store(st, args[1], a)
    return UNIT


def m_unit(eng, st, callee, args, dest, ret, rty):
    return UNIT


def m_min(eng, st, callee, args, dest, ret, rty):
    a, b = args
    return a if Dec(st.F).ge(b, a) else b


def m_max(eng, st, callee, args, dest, ret, rty):
    a, b = args
    return a if Dec(st.F).ge(a, b) else b


def m_ptr_add(eng, st, callee, args, dest, ret, rty):
    if isinstance(args[0], Str):
        args = [eng.str_bytes(st, args[0]), args[1]]
    p = args[0]
    if isinstance(p, Sl):
        p = Ptr(p.p.root, p.p.path + (("i", p.start),))
    return eng.ptr_add(st, p, args[1])


def m_ptr_sub(eng, st, callee, args, dest, ret, rty):
    p = args[0]
    if isinstance(p, Sl):
        p = Ptr(p.p.root, p.p.path + (("i", p.start),))
    return eng.ptr_add(st, p, N.scale(args[1], -1) if not isinstance(args[1], int) else -args[1])


def m_slice_as_ptr(eng, st, callee, args, dest, ret, rty):
    sl = to_slice(eng, st, args[0])
    return Ptr(sl.p.root, sl.p.path + (("i", sl.start),))


def m_str_as_ptr(eng, st, callee, args, dest, ret, rty):
    sl = eng.str_bytes(st, args[0])
    return Ptr(sl.p.root, sl.p.path + (("i", sl.start),))


# ------------------------------------------------------------------ panics
def m_panic(eng, st, callee, args, dest, ret, rty):
    msg = callee["path"].split("::")[-1]
    for a in args:
        if isinstance(a, Str) and all(t[0] == "c" and isinstance(t[1], int) for t in a.toks):
            msg += ": " + "".join(chr(t[1]) for t in a.toks)
    raise Panic(msg)


# ------------------------------------------------------------------ heap strings
def hs(eng, st, p):
    loc = None
    v = p
    while isinstance(v, Ptr):
        loc = v
        v = eng.load(st, v)
    if not isinstance(v, HS):
        raise Undecided("String %r" % (v,))
    return loc, v


def m_string_new(eng, st, callee, args, dest, ret, rty):
    return HS(())


def m_string_from(eng, st, callee, args, dest, ret, rty):
    s = args[0]
    while isinstance(s, Ptr):
        s = eng.load(st, s)
    return HS(skey(eng, st, s))


def m_string_push(eng, st, callee, args, dest, ret, rty):
    loc, v = hs(eng, st, args[0])
    eng.store(st, loc, HS(v.toks + (("c", args[1]),)))
    return UNIT


def m_string_push_str(eng, st, callee, args, dest, ret, rty):
    loc, v = hs(eng, st, args[0])
    s = args[1]
    while isinstance(s, Ptr):
        s = eng.load(st, s)
    eng.store(st, loc, HS(v.toks + skey(eng, st, s)))
    return UNIT


def units_of(toks):
    """a content in pieces: a byte or a token each"""
    out = []
    for t in toks:
        if t[0] == "bytes":
            out.extend(("bytes", b) for b in t[1:])
        else:
            out.append(t)
    return out


def toks_of(us):
    out = []
    for u in us:
        if u[0] == "bytes" and out and out[-1][0] == "bytes":
            out[-1] = out[-1] + u[1:]
        else:
            out.append(u)
    return tuple(out)


def cut_at(eng, st, toks, k):
    """(tokens before byte k, tokens from byte k on)"""
    us = units_of(toks)
    D = Dec(st.F)
    n = 0
    for i, u in enumerate(us):
        if D.eq(n, k):
            if u[0] == "bytes" and i and D.ge(u[1], 0x80) and D.lt(u[1], 0xC0):
                raise Undecided("a cut inside of a character")
            return toks_of(us[:i]), toks_of(us[i:])
        n = add(n, eng.toklen(st, u))
    if D.eq(n, k):
        return tuple(toks), ()
    if D.lt(n, k):
        raise Panic("a position behind the end of a string")
    raise Undecided("a cut inside of a token")


def m_string_insert(eng, st, callee, args, dest, ret, rty):
    loc, v = hs(eng, st, args[0])
    a, b = cut_at(eng, st, v.toks, args[1])
    eng.store(st, loc, HS(a + (("c", args[2]),) + b))
    return UNIT


def m_string_insert_str(eng, st, callee, args, dest, ret, rty):
    loc, v = hs(eng, st, args[0])
    a, b = cut_at(eng, st, v.toks, args[1])
    s = args[2]
    while isinstance(s, Ptr):
        s = eng.load(st, s)
    eng.store(st, loc, HS(a + skey(eng, st, s) + b))
    return UNIT


def m_string_truncate(eng, st, callee, args, dest, ret, rty):
    loc, v = hs(eng, st, args[0])
    if Dec(st.F).lt(args[1], eng.strlen(st, Str(v.toks))):
        eng.store(st, loc, HS(cut_at(eng, st, v.toks, args[1])[0]))
    return UNIT


def m_string_clear(eng, st, callee, args, dest, ret, rty):
    loc, v = hs(eng, st, args[0])
    eng.store(st, loc, HS(()))
    return UNIT


def take_char(eng, st, us, i):
    """the character that is the unit us[i] (an ASCII one, of a byte)"""
    u = us[i]
    if u[0] == "c":
        return u[1]
    if u[0] == "bytes" and Dec(st.F).lt(u[1], 0x80):
        return u[1]
    raise Undecided("the character at the end of a string")


def m_string_pop(eng, st, callee, args, dest, ret, rty):
    loc, v = hs(eng, st, args[0])
    us = units_of(v.toks)
    if not us:
        return none(rty)
    c = take_char(eng, st, us, -1)
    eng.store(st, loc, HS(toks_of(us[:-1])))
    return some(c, rty)


def m_string_remove(eng, st, callee, args, dest, ret, rty):
    loc, v = hs(eng, st, args[0])
    a, b = cut_at(eng, st, v.toks, args[1])
    us = units_of(b)
    if not us:
        raise Panic("cannot remove a char from the end of a string")
    c = take_char(eng, st, us, 0)
    eng.store(st, loc, HS(a + toks_of(us[1:])))
    return c


def m_string_is_empty(eng, st, callee, args, dest, ret, rty):
    loc, v = hs(eng, st, args[0])
    return m_str_is_empty(eng, st, callee, [Str(v.toks)], dest, ret, rty)


def m_str_range(eng, st, callee, args, dest, ret, rty, mode="index"):
    m = re.match(r"<(?:core::ops::|core::range::)?(\w+)(?:<.*>)? as ", callee.get("rpath", callee["path"]))
    r, s = args
    while isinstance(s, Ptr):
        s = eng.load(st, s)
    if isinstance(s, Sl):
        s = Str((), s)
    if not isinstance(s, Str):
        raise Undecided("substring of %r" % (s,))
    a, b, v = bounds_of_range(eng, st, r, eng.strlen(st, s), m.group(1))
    if not v:
        if mode == "get":
            return none(rty)
        raise Mismatch("unchecked access to a str out of its bounds") if mode == "unchecked" else Panic("str range out of bounds")
    if s.sl is None:
        x, y = cut_at(eng, st, s.toks, a)
        z, _ = cut_at(eng, st, y, sub(b, a))
        out = Str(z)
    else:
        D = Dec(st.F)
        for k in (a, b):
            if D.gt(k, 0) and D.lt(k, s.sl.ln):
                if not isinstance(k, int):
                    raise Undecided("a substring of unknown bounds")
                c = eng.load(st, Ptr(s.sl.p.root, s.sl.p.path + (("i", add(s.sl.start, k)),)))
                if c is UNINIT or D.ge(c, 0x80) and D.lt(c, 0xC0):
                    raise Undecided("a cut inside of a character")
        out = Str((), Sl(s.sl.p, add(s.sl.start, a), sub(b, a)))
    return some(out, rty) if mode == "get" else out


def m_str_range_get(*a):
    return m_str_range(*a, mode="get")


def m_str_range_unchecked(*a):
    return m_str_range(*a, mode="unchecked")


def m_string_deref(eng, st, callee, args, dest, ret, rty):
    loc, v = hs(eng, st, args[0])
    if v.toks and all(t[0] == "bytes" for t in v.toks):
        bs = tuple(b for t in v.toks for b in t[1:])
        root = ("hsb", bs)
        st.mem[root] = Arr(bs)
        return Str((), Sl(Ptr(root, ()), 0, len(bs)))
    return Str(v.toks)


def m_string_clone(eng, st, callee, args, dest, ret, rty):
    loc, v = hs(eng, st, args[0])
    return HS(v.toks)


def m_string_len(eng, st, callee, args, dest, ret, rty):
    loc, v = hs(eng, st, args[0])
    return eng.strlen(st, Str(v.toks))


# ------------------------------------------------------------------ the harness' unknown functions
def m_vp_digit(eng, st, callee, args, dest, ret, rty):
    i, ln, ix = args
    if not Dec(st.F).lt(ix, ln):
        raise Panic("digit() with an index that is not smaller than len()")
    return digit_tok(i, ix)


def digit_tok(i, ix):
    a = N.new_atom(("digit", i, ix), 0, 0x10FFFF, "digit(%r, %r)" % (i, ix))
    return P((((a.id,), 1),), 0)


def m_vp_default(eng, st, callee, args, dest, ret, rty):
    return eng.symval(st, rty, callee["path"].split("vp_default_")[-1])


def m_event(eng, st, callee, args, dest, ret, rty):
    """an unknown system: the call is recorded, the answer is unknown"""
    k = len(st.ev)
    name = callee["path"].split("::")[-1]
    vals = []
    for a in args:
        while isinstance(a, Ptr):
            a = eng.load(st, a)
        vals.append(a)
    ans = ("answer", name, tuple(vals))
    st.ev = st.ev + ((name, tuple(vals)),)
    t = tyof(eng, rty)
    if t["k"] == "adt" and t["adt"] == "enum":
        return SymE("answer%d_%s" % (k, name), rty)
    return NS((), ("o", "answer%d_%s" % (k, name)), ())


def m_box_as_ref(eng, st, callee, args, dest, ret, rty):
    v = args[0]
    while isinstance(v, Ptr):
        v = eng.load(st, v)
    if isinstance(v, Op):
        return v if isinstance(v.name, tuple) and v.name[0] == "inner" else Op(("inner", v.name))
    raise Undecided("as_ref of %r" % (v,))


# ------------------------------------------------------------------ formatting
def m_fmt_event(eng, st, callee, args, dest, ret, rty):
    vals = []
    for a in args:
        n = 0
        while isinstance(a, Ptr) and n < 5:
            a = eng.load(st, a)
            n += 1
        if isinstance(a, Str):
            a = ("str", skey(eng, st, a))
        vals.append(a)
    st.ev = st.ev + ((callee["path"], tuple(vals)),)
    return SymE("fmt%d" % len(st.ev), rty)


def m_fmt_option(eng, st, callee, args, dest, ret, rty):
    """what the formatter was asked for: any answer, always the same"""
    return eng.symval(st, rty, "fmt." + callee["path"].split("::")[-1])


def m_nonzero_new(eng, st, callee, args, dest, ret, rty):
    """the number stands for itself"""
    return none(rty) if Dec(st.F).eq(args[0], 0) else some(args[0], rty)


def m_nonzero_get(eng, st, callee, args, dest, ret, rty):
    v = args[0]
    while isinstance(v, Adt) and len(v.f) == 1:
        v = v.f[0]
    return v


def m_args(eng, st, callee, args, dest, ret, rty):
    return Op(("fmtargs",))


# ------------------------------------------------------------------ python frames
def pystep(eng, st, fr):
    name, data = fr.py
    return STEPS[name](eng, st, fr, data)


STEPS = {}
PY = {}


def squash(v):
    """forget the characters of a string, not whether there are any"""
    if isinstance(v, NS):
        if v.front or v.back:
            ne = any(tok_nonempty(t) for t in ns_toks(v))
            return NS((), ("some",) if ne else ("maybe",), ())
        return v
    if isinstance(v, Adt):
        if any(isinstance(x, (NS, Adt)) for x in v.f):
            return Adt(v.v, tuple(squash(x) for x in v.f), v.ty)
    return v


EXACT = {
    "core::str::<impl str>::len": m_str_len,
    "core::str::<impl str>::is_empty": m_str_is_empty,
    "core::str::<impl str>::as_bytes": m_as_bytes,
    "core::str::<impl str>::as_bytes_mut": m_as_bytes,
    "core::str::<impl str>::chars": m_chars,
    "core::str::<impl str>::as_ptr": m_str_as_ptr,
    "core::str::<impl str>::starts_with": m_edge(True),
    "core::str::<impl str>::ends_with": m_edge(False),
    "core::str::<impl str>::trim_end_matches": m_trim(True),
    "core::str::<impl str>::trim_start_matches": m_trim(False),
    "core::str::traits::<impl core::cmp::PartialEq for str>::eq": m_str_eq,
    "core::str::traits::<impl core::cmp::PartialEq for str>::ne": m_str_ne,
    "core::str::traits::<impl core::cmp::Ord for str>::cmp": m_str_cmp,
    "core::str::traits::<impl core::cmp::PartialOrd for str>::partial_cmp": m_str_cmp,
    "core::str::from_utf8_unchecked": m_from_utf8_unchecked,
    "core::str::from_utf8_unchecked_mut": m_from_utf8_unchecked,
    "core::str::converts::from_utf8_unchecked": m_from_utf8_unchecked,
    "core::str::converts::from_utf8_unchecked_mut": m_from_utf8_unchecked,
    "core::slice::<impl [T]>::iter": m_iter,
    "core::slice::<impl [T]>::iter_mut": m_iter,
    "core::slice::<impl [T]>::as_ptr": m_slice_as_ptr,
    "core::slice::<impl [T]>::as_mut_ptr": m_slice_as_ptr,
    "core::slice::<impl [T]>::copy_within": m_copy_within,
    "core::slice::<impl [T]>::rotate_left": m_rotate(True),
    "core::slice::<impl [T]>::rotate_right": m_rotate(False),
    "core::slice::<impl [T]>::reverse": m_reverse,
    "core::slice::<impl [T]>::copy_from_slice": m_copy_from_slice,
    "core::slice::<impl [T]>::clone_from_slice": m_copy_from_slice,
    "core::slice::<impl [T]>::fill": m_fill,
    "core::slice::from_raw_parts": m_from_raw_parts,
    "core::slice::from_raw_parts_mut": m_from_raw_parts,
    "core::slice::raw::from_raw_parts": m_from_raw_parts,
    "core::slice::raw::from_raw_parts_mut": m_from_raw_parts,
    "core::array::iter::<impl core::iter::IntoIterator for [T; N]>::into_iter": m_arr_into_iter,
    "core::array::<impl core::iter::IntoIterator for &'a [T; N]>::into_iter": m_iter,
    "core::slice::iter::<impl core::iter::IntoIterator for &'a [T]>::into_iter": m_iter,
    "core::slice::iter::<impl core::iter::IntoIterator for &'a mut [T]>::into_iter": m_iter,
    "core::slice::Iter::<'a, T>::new": m_iter,
    "core::slice::IterMut::<'a, T>::new": m_iter,
    "core::slice::Iter::<'a, T>::as_slice": m_as_slice,
    "core::iter::Iterator::zip": m_zip,
    "core::char::methods::<impl char>::len_utf8": m_len_utf8,
    "core::char::methods::<impl char>::from_u32": m_from_u32,
    "core::char::convert::from_u32": m_from_u32,
    "core::char::methods::<impl char>::encode_utf8": m_encode_utf8,
    "core::mem::MaybeUninit::<T>::uninit": m_uninit,
    "core::mem::MaybeUninit::<T>::new": m_identity,
    "core::mem::MaybeUninit::<T>::write": m_mu_write,
    "core::mem::MaybeUninit::<T>::assume_init": m_assume_init,
    "core::mem::MaybeUninit::<T>::assume_init_ref": m_identity,
    "core::mem::MaybeUninit::<T>::assume_init_mut": m_identity,
    "core::mem::MaybeUninit::<T>::as_ptr": m_identity,
    "core::mem::MaybeUninit::<T>::as_mut_ptr": m_identity,
    "core::mem::ManuallyDrop::<T>::new": m_identity,
    "core::mem::ManuallyDrop::<T>::into_inner": m_identity,
    "core::mem::replace": m_replace,
    "core::mem::swap": m_swap,
    "core::mem::forget": m_unit,
    "core::ptr::read": m_ptr_read,
    "core::ptr::write": m_ptr_write,
    "core::ptr::drop_in_place": m_unit,
    "core::intrinsics::read_via_copy": m_ptr_read,
    "core::intrinsics::write_via_move": m_ptr_write,
    "core::intrinsics::assert_inhabited": m_unit,
    "core::intrinsics::integer_min": m_min,
    "core::intrinsics::integer_max": m_max,
    "core::intrinsics::cold_path": m_unit,
    "core::intrinsics::compare_bytes": m_compare_bytes,
    "core::intrinsics::exact_div": m_exact_div,
    "core::intrinsics::copy": m_copy,
    "core::intrinsics::copy_nonoverlapping": m_copy,
    "core::ptr::copy": m_copy,
    "core::ptr::copy_nonoverlapping": m_copy,
    "core::ptr::mut_ptr::<impl *mut T>::copy_from": m_copy_from,
    "core::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping": m_copy_from,
    "core::ptr::mut_ptr::<impl *mut T>::copy_to": m_copy_to,
    "core::ptr::mut_ptr::<impl *mut T>::copy_to_nonoverlapping": m_copy_to,
    "core::ptr::const_ptr::<impl *const T>::copy_to": m_copy_to,
    "core::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping": m_copy_to,
    "core::ptr::mut_ptr::<impl *mut T>::write": m_ptr_write,
    "core::ptr::mut_ptr::<impl *mut T>::read": m_ptr_read,
    "core::ptr::const_ptr::<impl *const T>::read": m_ptr_read,
    "core::ptr::mut_ptr::<impl *mut T>::add": m_ptr_add,
    "core::ptr::const_ptr::<impl *const T>::add": m_ptr_add,
    "core::ptr::mut_ptr::<impl *mut T>::sub": m_ptr_sub,
    "core::ptr::const_ptr::<impl *const T>::sub": m_ptr_sub,
    "core::hint::assert_unchecked": m_unit,
    "core::hint::black_box": m_identity,
    "alloc::string::String::new": m_string_new,
    "alloc::string::String::with_capacity": m_string_new,
    "alloc::string::String::push": m_string_push,
    "alloc::string::String::push_str": m_string_push_str,
    "alloc::string::String::insert": m_string_insert,
    "alloc::string::String::insert_str": m_string_insert_str,
    "alloc::string::String::truncate": m_string_truncate,
    "alloc::string::String::clear": m_string_clear,
    "alloc::string::String::pop": m_string_pop,
    "alloc::string::String::remove": m_string_remove,
    "alloc::string::String::is_empty": m_string_is_empty,
    "alloc::string::String::reserve": m_unit,
    "alloc::vec::Vec::<T, A>::reserve": m_unit,
    "alloc::string::String::reserve_exact": m_unit,
    "alloc::string::String::shrink_to_fit": m_unit,
    "alloc::string::String::as_str": m_string_deref,
    "alloc::string::String::as_mut_str": m_string_deref,
    "alloc::string::String::len": m_string_len,
    "<alloc::string::String as core::ops::Deref>::deref": m_string_deref,
    "<alloc::string::String as core::ops::DerefMut>::deref_mut": m_string_deref,
    "<alloc::string::String as core::convert::From<&str>>::from": m_string_from,
    "<alloc::string::String as core::clone::Clone>::clone": m_string_clone,
    "<alloc::string::String as core::convert::AsRef<str>>::as_ref": m_string_deref,
    "core::fmt::Arguments::<'a>::from_str_nonconst": m_args,
    "core::panicking::unreachable_default_msg": m_args,
}

NX = r"<core::(?:slice::(?:iter::)?Iter(?:Mut)?<.*>|array::(?:iter::)?IntoIter<.*>|iter::Zip<.*>|str::Chars<.*>) as core::iter::(?:\w+::)*"
REGEX = [
    (re.compile(NX + r"Iterator>::next$"), m_next),
    (re.compile(NX + r"DoubleEndedIterator>::next_back$"), m_next_back),
    (re.compile(NX.replace("core::iter::(?:\\w+::)*", "core::clone::Clone>::clone$")), m_it_clone),
    (re.compile(NX + r"Iterator>::nth$"), m_nth),
    (re.compile(NX + r"Iterator>::(size_hint)$"), m_size_hint),
    (re.compile(NX + r"(ExactSizeIterator>::len|Iterator>::count)$"), m_it_len),
    (re.compile(r"<(usize|core::ops::Range\w*(<.*>)?|core::range::\w+(<.*>)?) as core::slice::SliceIndex<\[T\]>>::(index|index_mut)$"), m_range_index),
    (re.compile(r"<(usize|core::ops::Range\w*(<.*>)?|core::range::\w+(<.*>)?) as core::slice::SliceIndex<\[T\]>>::(get|get_mut)$"), m_range_get),
    (re.compile(r"<(usize|core::ops::Range\w*(<.*>)?|core::range::\w+(<.*>)?) as core::slice::SliceIndex<\[T\]>>::get_unchecked(_mut)?$"), m_range_unchecked),
    (re.compile(r"<(core::ops::Range\w*(<.*>)?|core::range::\w+(<.*>)?) as core::slice::SliceIndex<str>>::(index|index_mut)$"), m_str_range),
    (re.compile(r"<(core::ops::Range\w*(<.*>)?|core::range::\w+(<.*>)?) as core::slice::SliceIndex<str>>::(get|get_mut)$"), m_str_range_get),
    (re.compile(r"<(core::ops::Range\w*(<.*>)?|core::range::\w+(<.*>)?) as core::slice::SliceIndex<str>>::get_unchecked(_mut)?$"), m_str_range_unchecked),
    (re.compile(r"core::panicking::"), m_panic),
    (re.compile(r"core::(option|result)::(expect_failed|unwrap_failed)"), m_panic),
    (re.compile(r"core::slice::index::slice_\w+_fail"), m_panic),
    (re.compile(r"core::slice::copy_from_slice_impl|core::slice::index::slice_index_fail"), m_panic),
    (re.compile(r".*::precondition_check$"), m_unit),
    (re.compile(r"(.*::)?vp_digit$"), m_vp_digit),
    (re.compile(r"(.*::)?vp_default_[a-z0-9]+$"), m_vp_default),
    (re.compile(r"(.*::)?vp_custom_(fmt|try)$"), m_event),
    (re.compile(r"<alloc::(boxed::Box|rc::Rc|sync::Arc)<.*> as core::(convert::AsRef<.*>|ops::Deref|borrow::Borrow<.*>)>::(as_ref|deref|borrow)$"), m_box_as_ref),
    (re.compile(r"core::fmt::Formatter::<'a>::(width|precision|alternate|fill|align|sign_plus|sign_minus|sign_aware_zero_pad)$"), m_fmt_option),
    (re.compile(r"core::num::(nonzero::)?NonZero::<T>::new$"), m_nonzero_new),
    (re.compile(r"core::num::(nonzero::)?NonZero::<T>::get$"), m_nonzero_get),
    (re.compile(r"core::slice::cmp::<impl core::cmp::(Ord|PartialOrd|PartialEq)(<.*>)? for \[.*\]>::(eq|ne|cmp|partial_cmp)$"), m_slice_order),
    (re.compile(r"core::slice::<impl \[core::mem::MaybeUninit<T>\]>::write_copy_of_slice"), m_write_copy_of_slice),
    (re.compile(r"<str as core::fmt::(Display|Debug)>::fmt|core::fmt::Formatter::<'a>::(debug_tuple_field1_finish|pad|write_str|debug_tuple)|core::fmt::builders::DebugTuple.*|core::fmt::DebugTuple.*"), m_fmt_event),
]

_N = "nominals::NominalString::"
_M = "nominals::nominalstring::MaybeInline::"
TOK = {
    _N + "new": m_ns_new,
    _N + "new_reverse": m_ns_new,
    "<nominals::NominalString as core::default::Default>::default": m_ns_new,
    _N + "try_push": m_push,
    _N + "try_push_str": m_push_str,
    _N + "try_push_front": m_push_front,
    _N + "is_inline": m_is_inline,
    "<nominals::NominalString as core::convert::From<char>>::from": m_from_char,
    "<nominals::NominalString as core::convert::From<&str>>::from": m_from_str,
    "<nominals::NominalString as core::ops::Deref>::deref": m_deref,
    "<nominals::NominalString as core::clone::Clone>::clone": m_ns_clone,
    _M + "new": m_ns_new,
    _M + "reverse": m_ns_new,
    _M + "push": m_push,
    _M + "push_str": m_push_str,
    _M + "push_front": m_push_front,
    _M + "as_str": m_deref,
}
BYTE = {}
