"""What each function must produce, as automata over the characters that are appended to the string
(left to right or right to left).  The state of the automaton is part of the abstract state of the
program (st.ghost = (number of open segments, automaton state)); it advances whenever control
reaches a merge point."""
import num as N
import tables as TB
from num import P, add, sub, mul, div, rem
from engine import (
    Adt, Arr, Ptr, Str, NS, SymE, Op, Cond, Split, Undecided, Mismatch, Dec, c_ge, c_eq, c_not, c_and, c_eval, UNINIT,
)


def show_tok(t):
    if isinstance(t, tuple) and t and t[0] == "c":
        return repr(chr(t[1])) if isinstance(t[1], int) else repr(t[1])
    return repr(t)[:80]


def show_exp(e):
    if isinstance(e, int):
        return repr(chr(e))
    if isinstance(e, tuple) and e[0] == "tab":
        return "digit %r of %s" % (e[2], "".join((chr(x) if x > 31 else "-") if isinstance(x, int) else "?" for x in e[1])[:40])
    return repr(e)[:80]


def enum_range(st, D, j, n):
    """the value of j, found by splitting"""
    if isinstance(j, int):
        return j
    lo, hi = st.F.bounds(j)
    lo = max(lo if lo is not None else 0, 0)
    hi = min(hi if hi is not None else n - 1, n - 1)
    for v in range(lo, hi):
        if D.eq(j, v):
            return v
    if not D.eq(j, hi):
        raise Mismatch("index %r is not in the table" % (j,))
    return hi


def same_char(st, D, x, e):
    """is the character x the expected e (ints or polynomials)?"""
    if isinstance(x, int) and isinstance(e, int):
        return x == e
    if x == e:
        return True
    ax, ae = atom_of(x), atom_of(e)
    if ax is not None and ax.key[0] == "sel":
        i = ax.key[2]
        k = enum_range(st, D, i, len(ax.key[1]))
        return same_char(st, D, ax.key[1][k], e)
    if ae is not None and ae.key[0] == "sel":
        return same_char(st, D, e, x)
    if ax is not None and ae is not None and ax.key[0] == "digit" and ae.key[0] == "digit":
        if ax.key[1] != ae.key[1] and not D.eq(sub(ax.key[1], ae.key[1]), 0):
            return False
        return D.eq(sub(ax.key[2], ae.key[2]), 0)
    # distinct unknown characters
    d = sub(x, e)
    lo, hi = st.F.bounds(d)
    if lo == 0 and hi == 0:
        return True
    return (lo is None or lo <= 0) and (hi is None or hi >= 0) and st.F.ge(d) and st.F.ge(N.mul(-1, d))


def atom_of(x):
    if isinstance(x, P) and x.k == 0 and len(x.t) == 1 and x.t[0][1] == 1 and len(x.t[0][0]) == 1:
        return N.ATOMS[x.t[0][0][0]]
    return None


def match(st, D, tok, exp):
    """raises Mismatch unless the token is what is expected"""
    if not match_q(st, D, tok, exp):
        raise Mismatch("%s is written where %s is expected" % (show_tok(tok), show_exp(exp)))


def match_q(st, D, tok, exp):
    if isinstance(exp, tuple) and exp[0] == "tok":
        if tok == exp[1]:
            return True
        if tok[0] == "c" and exp[1][0] == "c":
            return same_char(st, D, tok[1], exp[1][1])
        return False
    if isinstance(exp, tuple) and exp[0] == "tabs":
        _, table, j = exp
        if tok[0] == "sel":
            elems, i = tok[1], tok[2]
            c = sub(j, i)
            if isinstance(c, int):
                lo, hi = st.F.bounds(i)
                lo = max(lo, 0)
                hi = min(hi, len(elems) - 1)
                for k in range(lo, hi + 1):
                    if not 0 <= k + c < len(table):
                        return False
                    if elems[k] != table[k + c]:
                        # which index fails?
                        if D.eq(i, k):
                            return False
                return True
            k = enum_range(st, D, i, len(elems))
            v = enum_range(st, D, j, len(table))
            return elems[k] == table[v]
        v = enum_range(st, D, j, len(table))
        return (tok,) == table[v]
    if tok[0] != "c":
        return False
    x = tok[1]
    if isinstance(exp, tuple) and exp[0] == "tab":
        _, table, j = exp
        if isinstance(j, int):
            if not 0 <= j < len(table):
                raise Mismatch("digit %d does not exist" % j)
            return same_char(st, D, x, table[j])
        a = atom_of(x)
        if a is not None and a.key[0] == "sel":
            elems, i = a.key[1], a.key[2]
            c = sub(j, i)
            if isinstance(c, int):
                lo, hi = st.F.bounds(i)
                lo = max(lo, 0)
                hi = min(hi, len(elems) - 1)
                for k in range(lo, hi + 1):
                    if not 0 <= k + c < len(table) or elems[k] != table[k + c]:
                        if D.eq(i, k):
                            return False
                return True
            if D.eq(c, 0):
                return _same_tab(st, D, elems, table, i)
        v = enum_range(st, D, j, len(table))
        return same_char(st, D, x, table[v])
    return same_char(st, D, x, exp)


def _same_tab(st, D, elems, table, i):
    lo, hi = st.F.bounds(i)
    lo = max(lo, 0)
    hi = min(hi, len(elems) - 1)
    for k in range(lo, hi + 1):
        if k >= len(table) or elems[k] != table[k]:
            if D.eq(i, k):
                return False
    return True


def variant(eng, v):
    """(name of the variant, fields)"""
    t = eng.prog.types[v.ty]
    return t["v"][v.v]["n"], v.f


class Spec:
    """rev: characters are consumed from the right end"""

    rev = False
    infallible = False
    exact = False
    finishing = False

    def __init__(self, name):
        self.name = name
        self.stats = {"tokens": 0, "flushes": 0, "returns": {}}

    # ---- to be provided: start(), consume(eng, st, D, s, tok) -> s, final(eng, st, D, s), expect_err(eng, st, D, s)
    def ghost(self):
        return (0, self.start())

    def oom_ghost(self):
        return (0, ("E",))

    # ---- flushing
    def flush(self, eng, st):
        L, s = st.ghost
        if s[0] == "E" and not self.infallible:
            for k, v in list(st.mem.items()):
                st.mem[k] = eng.models.squash(v)
            return
        if self.exact and len(st.frames) > 1:
            return
        if eng.oom and self.infallible and s[0] == "P" and s[1] == "dec" and not self.finishing:
            return  # the decimal digits stay apart: there are few, and each must be known to fit
        self.stats["flushes"] += 1
        D = Dec(st.F)
        for _ in range(50):
            L, s = st.ghost
            cands = []
            for k in sorted(st.mem, key=repr):
                find_ns(Ptr(k, ()), st.mem[k], cands)
            changed = False
            # join segments
            pend = []
            for p, v in cands:
                n = norm_seg(v, L)
                if n is not None:
                    eng.store(st, p, n[0])
                    st.ghost = (n[1], s)
                    changed = True
                    break
                toks = v.front if self.rev else v.back
                if self.rev and v.base is None:
                    toks = v.front + v.back
                elif not self.rev and v.base is None:
                    toks = v.front + v.back
                if not toks:
                    continue
                if v.base is None:
                    pend.append((1, p, v, toks))
                elif v.base == ("seg", L) and not (self.rev and v.back) and not (not self.rev and v.front):
                    pend.append((0, p, v, toks))
            if changed:
                continue
            if not pend:
                break
            pend.sort(key=lambda x: (x[0], x[2].rev))
            kind, p, v, toks = pend[0]
            if kind == 1:
                if self.rev and L >= 1:
                    break
                L += 1
            i, s = self.eat(eng, st, D, s, toks)
            rest = toks[: len(toks) - i] if self.rev else toks[i:]
            if i == 0:
                break
            base = v.base if kind == 0 else ("seg", L)
            eng.store(st, p, NS(rest, base, (), v.rev) if self.rev else NS((), base, rest, v.rev))
            st.ghost = (L, s)
            if rest:
                break
        L, s = st.ghost
        st.ghost = (L, self.settle(eng, st, s))

    def eat(self, eng, st, D, s, toks):
        i = 0
        order = reversed(toks) if self.rev else toks
        for t in order:
            if t[0] == "base":
                break
            s = self.consume(eng, st, D, s, t)
            self.stats["tokens"] += 1
            i += 1
        return i, s

    def settle(self, eng, st, s):
        """advance through what the facts already determine"""
        return s

    # ---- the result
    def result(self, eng, st, v):
        """('ok', NS) or ('err', name, fields)"""
        if isinstance(v, SymE):
            v = eng.resolve_enum(st, v)
        if self.infallible:
            if isinstance(v, NS):
                return ("ok", v)
            raise Undecided("result %r" % (v,))
        if not isinstance(v, Adt):
            raise Undecided("result %r" % (v,))
        nm, f = variant(eng, v)
        if nm == "Ok":
            if not isinstance(f[0], NS):
                raise Undecided("result %r" % (f[0],))
            return ("ok", f[0])
        e = f[0]
        if isinstance(e, SymE):
            e = eng.resolve_enum(st, e)
        nm, ef = variant(eng, e)
        return ("err", nm, ef)

    def on_return(self, eng, st, v):
        r = self.result(eng, st, v)
        D = Dec(st.F)
        if ("oom",) in st.ev and not self.infallible:
            if r[0] != "err" or r[1] != "OutOfMemory":
                raise Mismatch("a push that failed is not reported as OutOfMemory")
            self.payload(st, D, r)
            self.count("OutOfMemory")
            return
        if r[0] == "err":
            L, s = st.ghost
            want = self.expect_err(eng, st, D, s)
            if want is None:
                raise Mismatch("returns the error %s for a number that can be written" % r[1])
            if want != r[1]:
                raise Mismatch("returns the error %s where %s is expected" % (r[1], want))
            if r[2]:
                self.payload(st, D, r)
            elif r[1] != "NoZeroSymbol":
                raise Mismatch("the error %s does not carry the number" % r[1])
            self.count(r[1])
            return
        # finish consuming
        root = ("ret",)
        for k in list(st.mem):
            del st.mem[k]
        st.mem[root] = r[1]
        self.flush1(eng, st)
        x = st.mem[root]
        L, s = st.ghost
        if s[0] == "E":
            raise Mismatch("returns a string where an error is expected")
        if isinstance(x.base, tuple) and x.base[0] == "dead":
            raise Mismatch("returns a string after a push failed")
        if x.front or x.back:
            raise Undecided("unfinished segments in the result (%r)" % (x,))
        if x.base is not None and (x.base != ("seg", 1) or L != 1):
            if L > 1:
                raise Mismatch("a part of the number is missing in the result")
            raise Undecided("segments %r of %d" % (x.base, L))
        if x.base is None and L != 0:
            raise Mismatch("a part of the number is missing in the result")
        self.final(eng, st, D, s)
        self.count("Ok")

    def flush1(self, eng, st):
        e, self.exact = self.exact, False
        self.finishing = True
        try:
            self.flush(eng, st)
        finally:
            self.exact, self.finishing = e, False

    def payload(self, st, D, r):
        if len(r[2]) != 1 or not (r[2][0] == self.n or D.eq(sub(r[2][0], self.n), 0)):
            raise Mismatch("the error %s does not carry the number that was given" % r[1])

    def count(self, k):
        self.stats["returns"][k] = self.stats["returns"].get(k, 0) + 1


class AnySpec:
    """accepts every text: for properties of the control flow alone (panics, termination)"""

    def __init__(self, inner):
        self.inner = inner
        self.stats = {"tokens": 0, "flushes": 0, "returns": {}}
        self.exact = False

    def __getattr__(self, k):
        return getattr(self.inner, k)

    def ghost(self):
        return (0, ("any",))

    oom_ghost = ghost

    def flush(self, eng, st):
        for k, v in list(st.mem.items()):
            st.mem[k] = eng.models.squash(v)

    def on_return(self, eng, st, v):
        self.stats["returns"]["any"] = self.stats["returns"].get("any", 0) + 1


def find_ns(p, v, out):
    if isinstance(v, NS):
        out.append((p, v))
    elif isinstance(v, Adt):
        for i, x in enumerate(v.f):
            if isinstance(x, (NS, Adt)):
                find_ns(Ptr(p.root, p.path + (("f", i),)), x, out)


def norm_seg(v, L):
    """merges the last open segment into the string it was appended to: (NS, new L)"""
    for side in ("front", "back"):
        toks = getattr(v, side)
        for i, t in enumerate(toks):
            if t[0] == "base" and isinstance(t[1], tuple) and t[1][0] == "seg":
                k = t[1][1]
                if v.base is None and i == 0 and side == "front" or (v.base is None and not v.front and i == 0):
                    r = toks[1:]
                    # the string becomes that segment
                    if side == "back":
                        return NS(v.front, t[1], r, v.rev), L
                    return NS((), t[1], r + v.back, v.rev), L
                if side == "back" and i == 0 and v.base == ("seg", k - 1) and k == L:
                    return NS(v.front, v.base, toks[1:], v.rev), L - 1
    return None


# ------------------------------------------------------------------ positional
class Coll:
    """ln: a number, or a function of the decider; digit: (state, decider, index) -> expectation"""

    def __init__(self, has_zero, zero_based, fixed, ln, digit, fallback=None, tag=None):
        self.tag = tag  # which case of its definition applies: keeps the states of the cases apart
        self.has_zero, self.zero_based, self.fixed, self.ln, self.digit, self.fallback = (
            has_zero, zero_based, fixed, ln, digit, fallback,
        )

    def len(self, D):
        return self.ln(D) if callable(self.ln) else self.ln

    @staticmethod
    def table(chars, has_zero, zero_based=True, fixed=False, fallback=None):
        tab = tuple(ord(c) if isinstance(c, str) else c for c in chars)
        return Coll(has_zero, zero_based, fixed, len(tab), lambda st, D, i: ("tab", tab, i), fallback)


def one_based(c):
    """counts from one: the collection's digits without its zero_based"""
    return Coll(c.has_zero, False, c.fixed, c.ln, c.digit, c.fallback, c.tag)


def restrict(k, c):
    """the first k digits"""

    def ln(D):
        n = c.len(D)
        return k if D.ge(n, k) else n

    def tag(D):
        return (1 if D.ge(c.len(D), k) else 0, c.tag(D) if c.tag else 0)

    return Coll(c.has_zero, c.zero_based, c.fixed, ln, c.digit, c.fallback, tag)


def chain(a, b):
    """the digits of a, then those of b; counts like a"""

    def digit(st, D, i):
        n = a.len(D)
        return b.digit(st, D, sub(i, n)) if D.ge(i, n) else a.digit(st, D, i)

    return Coll(a.has_zero, a.zero_based, False, lambda D: add(a.len(D), b.len(D)), digit, None)


DECIMAL = Coll.table(TB.POSITIONAL["Decimal"], True)


class Positional(Spec):
    rev = True

    def __init__(self, name, coll, bits, n, infallible=False):
        Spec.__init__(self, name)
        self.coll, self.bits, self.n, self.infallible = coll, bits, n, infallible
        self.max = (1 << bits) - 1

    def start(self):
        return ("S",)

    def oom_ghost(self):
        return (0, ("P", "dec", self.n, 0, 10, 0)) if self.infallible else (0, ("E",))

    def find(self, k):
        if k == "dec":
            return DECIMAL
        c = self.coll
        for _ in range(k):
            c = c.fallback
        return c

    def decide(self, st, D):
        n = self.n
        k = 0
        while True:
            c = self.find(k)
            if D.gt(c.len(D), self.max):
                if D(c.has_zero) or D(c.zero_based):
                    return ("1", k, n)
                if D.eq(n, 0):
                    return ("err", "NoZeroSymbol")
                return ("1", k, sub(n, 1))
            hz = D(c.has_zero)
            zb = hz or D(c.zero_based)
            if D(c.fixed) and (D.ge(n, c.len(D)) if zb else D.gt(n, c.len(D))):
                f = c.fallback
                if f is None or D.eq(f.len(D), 0):
                    return ("err", "OutOfBounds")
                k += 1
                continue
            if D.eq(c.len(D), 0) or (hz and D.eq(c.len(D), 1) and not D.eq(n, 0)):
                return ("err", "OutOfBounds")
            if hz:
                return ("P", k, n, 0, c.len(D), c.tag(D) if c.tag else 0)
            if zb:
                return ("Z", k, add(n, 1), 0, c.len(D), c.tag(D) if c.tag else 0)
            if D.eq(n, 0):
                return ("err", "NoZeroSymbol")
            return ("Z", k, n, 0, c.len(D), c.tag(D) if c.tag else 0)

    def begin(self, st, D):
        d = self.decide(st, D)
        if d[0] == "err":
            return ("P", "dec", self.n, 0, 10, 0) if self.infallible else ("E", d[1])
        return d

    def consume(self, eng, st, D, s, tok):
        if s[0] == "S":
            s = self.begin(st, D)
        if s[0] in ("E",):
            return s
        if s[0] == "F":
            raise Mismatch("%s is written after the only digit" % show_tok(tok))
        c = self.find(s[1])
        if s[0] == "1":
            match(st, D, tok, c.digit(st, D, s[2]))
            return ("F",)
        g, cnt = s[2], s[4]
        if s[3] and D.eq(g, 0) or s[0] == "Z" and D.eq(g, 0):
            raise Mismatch("a digit is written in front of the most significant digit")
        if s[0] == "Z":
            g = sub(g, 1)
        match(st, D, tok, c.digit(st, D, rem(g, cnt, st.F)))
        return (s[0], s[1], div(g, cnt, st.F), 1, cnt, s[5])

    def settle(self, eng, st, s):
        if s[0] == "S":
            s = self.begin(st, Dec(st.F))
        if s[0] in ("P", "Z") and not isinstance(s[2], int):
            lo, hi = st.F.bounds(s[2])
            if lo is not None and lo == hi:
                return (s[0], s[1], lo, s[3], s[4], s[5])
        return s

    def final(self, eng, st, D, s):
        if s[0] == "S":
            s = self.begin(st, D)
        if s[0] == "E":
            raise Mismatch("returns a string where an error is expected")
        if s[0] == "F":
            return
        if s[0] == "1" or not s[3] or not D.eq(s[2], 0):
            raise Mismatch("digits are missing")

    def expect_err(self, eng, st, D, s):
        if s[0] == "S":
            s = self.begin(st, D)
        return s[1] if s[0] == "E" else None


# ------------------------------------------------------------------ left to right
class Queue(Spec):
    """s = ("Q", data, expected items): next_items computes more expected items"""

    def start(self):
        return ("Q", self.first(), ())

    def consume(self, eng, st, D, s, tok):
        if s[0] == "E":
            return s
        _, d, q = s
        n = 0
        while not q:
            r = self.more(st, D, d)
            if r is None:
                raise Mismatch("%s is written after the end of the number" % show_tok(tok))
            if r == "err":
                return ("E",)
            d, q = r
            n += 1
            if n > 100:
                raise Undecided("spec")
        match(st, D, tok, q[0])
        return ("Q", d, q[1:])

    def settle(self, eng, st, s):
        if s[0] != "Q" or s[2]:
            return s
        _, d, q = s
        D = Dec(st.F)
        for _ in range(100):
            try:
                r = self.more(st, D, d)
            except (Split, Mismatch):
                break
            if r is None or r == "err" or r[1]:
                break
            d = r[0]
        return ("Q", d, ())

    def final(self, eng, st, D, s):
        if s[0] == "E":
            raise Mismatch("returns a string where an error is expected")
        _, d, q = s
        n = 0
        while not q:
            r = self.more(st, D, d)
            if r is None:
                return
            if r == "err":
                raise Mismatch("returns a string where an error is expected")
            d, q = r
        raise Mismatch("%s is missing at the end of the number" % show_exp(q[0]))


def chars(s):
    return tuple(ord(c) for c in s)


class Additive(Queue):
    """table: [(items, value)] in descending order, zero: items or None"""

    def __init__(self, name, table, bits, n, zero):
        Spec.__init__(self, name)
        self.table, self.n, self.zero = table, n, zero
        self.complete = any(isinstance(v, int) and v == 1 for _, v in table)

    def first(self):
        return ("start",)

    def more(self, st, D, d):
        if d[0] == "start":
            if D.eq(self.n, 0):
                if self.zero is None:
                    return "err"
                z = self.zero(st, D) if callable(self.zero) else self.zero
                if z is None:
                    return "err"
                return (("rest", 0), z)
            d = ("rest", self.n)
        g = d[1]
        if D.eq(g, 0):
            return None
        for items, v in self.table:
            if isinstance(v, int) and v == 0:
                continue
            if not isinstance(v, int) and D.eq(v, 0):
                continue
            if D.ge(g, v):
                return (("rest", sub(g, v)), items)
        return "err"

    def expect_err(self, eng, st, D, s):
        if D.eq(self.n, 0):
            z = self.zero(st, D) if callable(self.zero) else self.zero
            return "NoZeroSymbol" if z is None else None
        if self.complete:
            return None
        if s[0] == "E":
            return "OutOfBounds"
        d = s[1]
        for _ in range(4):
            r = self.more(st, D, d)
            if r is None:
                return None
            if r == "err":
                return "OutOfBounds"
            d = r[0]
        raise Undecided("greedy remainder")


def additive_any(tab, bits, n):
    """a set with unknown symbols and weights, in descending order (new() checks it)"""

    def zero(st, D):
        for items, v in tab:
            if D.eq(v, 0):
                return items
        return None

    return Additive("AdditiveSet", tab, bits, n, zero)


class Hebrew(Queue):
    def __init__(self, name, bits, n):
        Spec.__init__(self, name)
        self.n = n

    def first(self):
        return ("rest", self.n, 0)

    def more(self, st, D, d):
        g = d[1]
        if D.eq(g, 0):
            if not d[2]:
                return "err"
            return None
        if D.eq(g, 15):
            return (("rest", 0, 1), chars(TB.HEBREW_15))
        if D.eq(g, 16):
            return (("rest", 0, 1), chars(TB.HEBREW_16))
        for sy, v in TB.HEBREW:
            if D.ge(g, v):
                if not d[2] and D.eq(g, v):
                    return (("rest", 0, 1), chars(TB.GERESH + sy + TB.GERSHAYIM))
                return (("rest", sub(g, v), 1), chars(sy))

    def expect_err(self, eng, st, D, s):
        return "NoZeroSymbol" if D.eq(self.n, 0) else None


class Ethiopic(Queue):
    rev = True

    def __init__(self, name, bits, n):
        Spec.__init__(self, name)
        self.n = n

    def first(self):
        return ("rest", self.n, 0)

    ONES = tuple(ord(c) if c else 0 for c in TB.ETHIOPIC_ONES)
    TENS = tuple(ord(c) if c else 0 for c in TB.ETHIOPIC_TENS)

    def more(self, st, D, d):
        g, k = d[1], d[2]
        if D.eq(g, 0):
            return "err" if k == 0 else None
        F = st.F
        a = rem(g, 10, F)
        g10 = div(g, 10, F)
        b = rem(g10, 10, F)
        up = div(g10, 10, F)
        az, bz = D.eq(a, 0), D.eq(b, 0)
        items = []
        if k == 2:
            items.append(ord(TB.ETHIOPIC_10000))
        elif k == 1 and not (az and bz):
            items.append(ord(TB.ETHIOPIC_100))
        omit = (az and bz) or (k > 0 and bz and D.eq(a, 1) and (k == 1 or D.eq(up, 0)))
        if not omit:
            if not az:
                items.append(("tab", self.ONES, a))
            if not bz:
                items.append(("tab", self.TENS, b))
        return (("rest", up, 2 if k == 1 else 1), tuple(items))

    def expect_err(self, eng, st, D, s):
        return "NoZeroSymbol" if D.eq(self.n, 0) else None


class Enumerated(Queue):
    def __init__(self, name, table, has_zero, bits, n):
        """table: tuple of token tuples"""
        Spec.__init__(self, name)
        self.table, self.n, self.off = tuple(table), n, 0 if has_zero else 1

    def first(self):
        return ("start",)

    def more(self, st, D, d):
        if d[0] == "end":
            return None
        if self.want(st, D) is not None:
            return "err"
        return (("end",), (("tabs", self.table, sub(self.n, self.off)),))

    def want(self, st, D):
        if self.off and D.eq(self.n, 0):
            return "NoZeroSymbol"
        if D.ge(self.n, len(self.table) + self.off):
            return "OutOfBounds"
        return None

    def expect_err(self, eng, st, D, s):
        return self.want(st, D)


class Chinese(Queue):
    """digits: tuple of the decimal digits of n (index = power)"""

    def __init__(self, name, script, usage, scale, formal, bits, n, digits):
        Spec.__init__(self, name)
        self.n, self.digits, self.formal = n, digits, formal
        cs = TB.CHINESE_CHARS[(script, usage)]
        self.tab = tuple(ord(c) for c in cs[:10])
        self.units = tuple(ord(c) for c in cs[10:])
        self.large = tuple(ord(c) for c in TB.CHINESE_LARGE[script])
        self.short = scale == "short"
        nd = len(digits)
        # steps: ("d", power) and ("m", character, power, flag index); blocks are numbered
        self.steps = []
        self.nblocks = 0
        powers = TB.CHINESE_SCALES[scale]
        if self.short:
            self.limit = 10 ** 15
            for i in range(min(nd, 15) - 1, -1, -1):
                self.steps.append(("d", i, ()))
                if i >= 4:
                    self.steps.append(("s", self.large[i - 4], i))
        else:
            self.limit = None
            self.block(0, nd, list(enumerate(powers)), ())
        self.steps = tuple(self.steps)

    def block(self, lo, hi, scales, blocks):
        use = [(j, p) for j, p in scales if p < hi - lo]
        if not use:
            for i in range(hi - 1, lo - 1, -1):
                self.steps.append(("d", i, blocks))
            return
        j, p = use[-1]
        b = self.nblocks
        self.nblocks += 1
        self.block(lo + p, hi, use[:-1], blocks + (b,))
        self.steps.append(("m", self.large[j], lo + p, b))
        self.block(lo, lo + p, use[:-1], blocks)

    def first(self):
        # (next step, power of the last character or -1, blocks that are not empty, digit was written at this power)
        return (0, -1, frozenset(), 0)

    def more(self, st, D, d):
        i, p, fl, wrote = d
        if i == 0 and p == -1 and not wrote and D.eq(self.n, 0):
            return ((len(self.steps), 0, fl, 0), (self.tab[0],))
        if self.limit is not None and i == 0 and p == -1 and D.ge(self.n, self.limit):
            return "err"
        if i >= len(self.steps):
            return None
        s = self.steps[i]
        if s[0] == "d":
            x = s[1]
            dg = self.digits[x]
            if D.eq(dg, 0):
                return ((i + 1, p, fl, 0), ())
            items = []
            if p >= 0 and x < p - 1:
                items.append(self.tab[0])
            unit = 0 if (self.short and x >= 4) else x % 4
            if not (unit == 1 and p < 0 and not self.formal and D.eq(dg, 1)):
                items.append(("tab", self.tab, dg))
            if unit:
                items.append(self.units[unit - 1])
            return ((i + 1, x, fl | frozenset(s[2]), 1), tuple(items))
        if s[0] == "s":
            return ((i + 1, p, fl, 0), (s[1],) if wrote else ())
        _, ch, power, b = s
        if b in fl:
            return ((i + 1, power, fl - {b}, 0), (ch,))
        return ((i + 1, p, fl, 0), ())

    def expect_err(self, eng, st, D, s):
        if self.limit is not None and D.ge(self.n, self.limit):
            return "OutOfBounds"
        return None
