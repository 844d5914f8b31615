"""NominalString, from its own code: every reachable layout of the string (which bytes of the inline
buffer are written, which fields have which values; the bytes themselves stay unknown) is found as
a fixpoint over the operations, and each operation is interpreted from each layout.  The content of
a layout is what the code's own deref() says."""
import time
import num as N
from num import P, add, sub
from engine import Adt, Arr, Ptr, Sl, Str, NS, HS, SymE, Op, Cond, UNINIT, UNIT, Dec, XFacts, Engine, Mismatch, Panic, Undecided
from models import Models, skey, slice_vals, enc_byte
from fnunits import FnSpec

CAP = 62  # the documented inline capacity


def B(name, i):
    return N.sym("%s%d" % (name, i), 0, 255)


class Result:
    def __init__(self):
        self.bad = []  # (op, layout, message, where)
        self.und = []
        self.ok = 0
        self.steps = 0
        self.functions = set()


def run(prog, entry, args, var, F=None, check=None):
    """[(state, value)], Result"""
    eng = Engine(prog, Models("byte"), oom=False)
    eng.opts["unroll"] = True
    eng.MAXSTEPS = 60000
    spec = FnSpec(entry, check or (lambda *a: None))
    eng.spec = spec
    mem = {}
    st = eng.start(entry, (lambda st, body: args(eng, st, body)), ghost=spec.ghost(), facts=F or XFacts())
    rets = []

    def fin(st, v):
        rets.append((st, v))
        return False

    eng.finish = fin
    eng.run(st)
    return eng, rets


def content(prog, val):
    """(content as a tuple of byte values or tokens, slice) of a string value, by interpreting deref()"""

    def args(eng, st, body):
        st.mem[("sym", "s")] = val
        return [Ptr(("sym", "s"), ())]

    eng, rets = run(prog, "ns::e_deref", args, None)
    r = eng.res
    if r.mismatches:
        raise Mismatch("deref: " + r.mismatches[0][0])
    if r.panics:
        raise Mismatch("deref panics: " + r.panics[0][0])
    if r.undecided or len(rets) != 1:
        raise Undecided("deref: %r" % (r.undecided[:1],))
    st, v = rets[0]
    if not isinstance(v, Str):
        raise Undecided("deref returns %r" % (v,))
    if v.sl is not None:
        own = v.sl.p.root == ("sym", "s")
        return tuple(slice_vals(eng, st, v.sl)), (v.sl if own else None)
    return flat(v.toks), None


def flat(toks):
    """bytes and tokens in one tuple"""
    out = []
    for t in toks:
        if t[0] == "bytes":
            out.extend(t[1:])
        elif t[0] == "c" and isinstance(t[1], int):
            out.extend(chr(t[1]).encode())
        else:
            out.append(t)
    return tuple(out)


def canon(prog, val, strict_types=True):
    """(canonical value, number of bytes or None for a heap string)"""
    c, sl = content(prog, val)
    if sl is None:
        return ("heap", subst(val, None, None, prog)), None
    for x in c:
        if x is UNINIT:
            raise Mismatch("the content has bytes that were never written")
    base = {}
    path = sl.p.path
    return ("inline", place_content(prog, val, path, sl.start, len(c))), len(c)


def place_content(prog, v, path, start, n):
    """v with the canonical bytes at its content and nothing known elsewhere"""

    def go(v, path, typ):
        if isinstance(v, Adt):
            out = []
            for i, x in enumerate(v.f):
                p = path[1:] if path is not None and path and path[0] == ("f", i) else None
                t = None
                if v.ty is not None:
                    tt = prog.types[v.ty]
                    try:
                        t = tt["v"][v.v]["f"][i][1]
                    except (KeyError, IndexError, TypeError):
                        t = None
                out.append(go(x, p, t))
            return Adt(v.v, tuple(out), v.ty)
        if isinstance(v, Arr):
            init = False
            if typ is not None and prog.types[typ]["k"] == "array":
                init = prog.types[prog.types[typ]["e"]]["k"] == "int"
            es = []
            for i, x in enumerate(v.e):
                if path is not None and not path and start <= i < start + n:
                    es.append(B("b", i - start))
                elif path is None and x is not UNINIT and not isinstance(x, int):
                    es.append(x)
                else:
                    es.append(N.sym("stale", 0, 255) if init else UNINIT)
            return Arr(tuple(es))
        return v

    return go(v, tuple(path), None)


def subst(v, *a):
    if isinstance(v, Adt):
        return Adt(v.v, tuple(subst(x) for x in v.f), v.ty)
    if isinstance(v, HS):
        return HS((("o", "heap"),))
    return v


def key_of(c):
    return repr(c)


def some_lengths(eng, states):
    """values of the length of the unknown string at which the states exist"""
    import cells

    i = N.sym("len(x)", 0, (1 << 63) - 1).t[0][0][0]
    out = []
    for st in states:
        try:
            for pins in cells.cells(eng, st):
                v = dict(pins).get(i)
                if v is not None and CAP < v <= 1100 and v not in out:
                    out.append(v)
        except Exception:
            pass
    return out[:2]


def where(eng, st):
    return eng.where(st)


class Machine:
    def __init__(self, prog, var):
        self.prog, self.var = prog, var
        self.alloc = var == "alloc"
        self.states = {}  # key -> (value, length or None)
        self.todo = []
        self.lengths = []
        self.res = Result()

    def note(self, val, op):
        """a new string value: its layout"""
        (kind, c), n = canon(self.prog, val)
        k = key_of((kind, c))
        if k not in self.states:
            self.states[k] = (c, n)
            self.todo.append(k)
            if len(self.states) > 4000:
                raise Undecided("too many layouts")
        return k

    def bad(self, op, lay, msg, w=""):
        self.res.bad.append((op, lay, msg, w))

    def call(self, op, entry, val, extra, want, F=None, inline=None, lay=""):
        """interprets an operation on (a copy of) val; want(eng, st, result, new content) raises Mismatch"""
        prog = self.prog
        new = []

        def args(eng, st, body):
            st.mem[("sym", "s")] = val
            xs = extra(eng, st) if extra else []
            if eng.prog.types[body["locals"][1]]["k"] in ("ref", "ptr"):
                return [Ptr(("sym", "s"), ())] + xs
            return [val] + xs

        eng, rets = run(prog, entry, args, self.var, F)
        r = eng.res
        self.res.steps += r.steps
        self.res.functions |= {f for f in r.functions if prog.bodies[f]["crate"] == "nominals"}
        for m, w, st in r.mismatches[:2]:
            self.bad(op, lay, m, w)
        for m, w, st in r.panics[:2]:
            self.bad(op, lay, "panics: " + m, w)
        for m, w, st in r.undecided[:2]:
            self.res.und.append((op, lay, m, w))
        self.lengths = some_lengths(eng, [st for _, _, st in r.undecided[:4]]) if r.undecided else []
        if not rets and not r.mismatches and not r.panics and not r.undecided:
            self.bad(op, lay, "never returns")
        for st, v in rets:
            try:
                eng.spec = None
                self.decide(op, lay, eng, st, v, want, new)
            except Mismatch as e:
                self.bad(op, lay, e.msg)
            except Undecided as e:
                self.res.und.append((op, lay, str(e), ""))
        if not r.mismatches and not r.panics and not r.undecided:
            self.res.ok += 1
        return new

    def decide(self, op, lay, eng, st, v, want, new):
        from engine import Split

        work = [st]
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > 200:
                raise Undecided("too many cases")
            try:
                new.extend(want(eng, s, v) or [])
            except Split as sp:
                for o in sp.options:
                    c = s.copy()
                    if o(c.F):
                        work.append(c)


def char_bytes(D, ch):
    """number of bytes of a symbolic character, by cases"""
    if D.lt(ch, 0x80):
        n = 1
    elif D.lt(ch, 0x800):
        n = 2
    elif D.lt(ch, 0x10000):
        n = 3
    else:
        n = 4
    return n, tuple(enc_byte(ch, n, i) for i in range(n))


def is_ok(eng, v):
    """Ok / Err of a Result"""
    if isinstance(v, Adt) and v.ty is not None:
        t = eng.prog.types[v.ty]
        return t["v"][v.v]["n"] == "Ok"
    raise Undecided("result %r" % (v,))


def norm(c, D=None):
    """characters of unknown value as bytes"""
    out = []
    for x in c:
        if isinstance(x, tuple) and x[0] == "c" and D is not None:
            out.extend(char_bytes(D, x[1])[1])
        else:
            out.append(x)
    return tuple(out)


def same_content(got, exp, D):
    return norm(got, D) == norm(exp, D)


def heap_content(n):
    return (("o", "heap"),)


def layout_content(c, n):
    return tuple(B("b", i) for i in range(n)) if n is not None else heap_content(n)


def show(n, k):
    return "heap string" if n is None else "%d bytes inline%s" % (n, "" if k is None else "")


CH = N.sym("ch", 0, 0x10FFFF)


def push_want(m, old, n, front, what, slen=None):
    """after the push of a character or a string"""

    def want(eng, st, v):
        D = Dec(st.F)
        if what == "char":
            ln, bs = char_bytes(D, CH)
        else:
            ln, bs = slen, what
        okk = is_ok(eng, v)
        val = st.mem.get(("sym", "s"))
        fits = n is not None and ln is not None and n + ln <= CAP
        if not okk:
            if m.alloc:
                raise Mismatch("a push fails although memory can be allocated")
            if fits:
                raise Mismatch("a push of %s bytes to %d fails although it fits" % (ln, n))
            exp = old
        else:
            if not m.alloc and not fits:
                raise Mismatch("a push that does not fit is reported as done")
            exp = tuple(bs) + old if front else old + tuple(bs)
        got, sl = content(eng.prog, val)
        if not same_content(got, exp, D):
            raise Mismatch("after the operation the content is %s where %s is expected" % (show_content(got), show_content(exp)))
        if okk and fits and sl is None:
            raise Mismatch("the string leaves the inline buffer although it fits")
        if okk and (n is None or not fits) and sl is not None:
            raise Mismatch("more bytes than the inline capacity are kept inline")
        return [val]

    return want


def show_content(c):
    return "[" + " ".join(str(x)[:24] for x in c[:70]) + "]"


def str_arg(eng, st, L):
    """a &str of L unknown bytes"""
    st.mem[("sym", "x")] = Arr(tuple(B("x", i) for i in range(L)))
    return Str((), Sl(Ptr(("sym", "x"), ()), 0, L))


def discover(prog, var):
    """all layouts that are reachable by pushing characters"""
    m = Machine(prog, var)
    for e in ("ns::e_new", "ns::e_new_reverse", "ns::e_default"):
        eng, rets = run(prog, e, lambda eng, st, body: [], var)
        take(m, e, eng, rets, lambda D: ())
    def mk(eng, st, body):
        return [CH]

    eng, rets = run(prog, "ns::e_from_char", mk, var)
    take(m, "ns::e_from_char", eng, rets, lambda D: char_bytes(D, CH)[1])
    drain(m)
    return m


def drain(m):
    while m.todo:
        k = m.todo.pop()
        for v in push_ops(m, k):
            m.note(v, "push")


def take(m, op, eng, rets, exp):
    r = eng.res
    for x, w, st in r.mismatches[:1]:
        m.bad(op, "", x, w)
    for x, w, st in r.panics[:1]:
        m.bad(op, "", "panics: " + x, w)
    for x, w, st in r.undecided[:1]:
        m.res.und.append((op, "", x, w))
    for st, v in rets:
        new = []

        def want(eng, st, v):
            D = Dec(st.F)
            got, sl = content(eng.prog, v)
            if not same_content(got, exp(D), D):
                raise Mismatch("the content is %s where %s is expected" % (show_content(got), show_content(exp(D))))
            return [v]

        try:
            m.decide(op, "", eng, st, v, want, new)
        except Mismatch as e:
            m.bad(op, "", e.msg)
        except Undecided as e:
            m.res.und.append((op, "", str(e), ""))
        for x in new:
            m.note(x, op)
    m.res.ok += 1


def push_ops(m, k):
    c, n = m.states[k]
    old = layout_content(c, n)
    out = []
    for op, front in (("ns::e_push", False), ("ns::e_push_front", True)):
        out += m.call(op, op, c, lambda eng, st: [CH], push_want(m, old, n, front, "char"), lay=show(n, k))
    return out


def push_str_ops(m, k, lens=None):
    """pushes of strings of each length up to beyond the capacity"""
    c, n = m.states[k]
    old = layout_content(c, n)
    out = []
    for L in lens if lens is not None else range(0, CAP + 3):
        if n is None and L > 2:
            break
        bs = tuple(B("x", i) for i in range(L))
        out += m.call("ns::e_push_str", "ns::e_push_str", c, lambda eng, st, L=L: [str_arg(eng, st, L)], push_want(m, old, n, False, bs, L), lay="%s, string of %d bytes" % (show(n, k), L))
    # longer strings
    F = XFacts()
    F.add_ge(sub(N.sym("len(x)", 0, (1 << 63) - 1), CAP + 1))
    out += m.call("ns::e_push_str", "ns::e_push_str", c, lambda eng, st: [Str((("o", "x"),))], push_want(m, old, n, False, (("o", "x"),), None), F=F, lay="%s, longer string" % show(n, k))
    # where their unknown bytes were needed: lengths at which the facts allow it
    for L in m.lengths:
        bs = tuple(B("x", i) for i in range(L))
        out += m.call("ns::e_push_str", "ns::e_push_str", c, lambda eng, st, L=L: [str_arg(eng, st, L)], push_want(m, old, n, False, bs, L), lay="%s, string of %d bytes" % (show(n, k), L))
    return out


def from_str_ops(m):
    out = []
    for L in range(0, CAP + 1):
        eng, rets = run(m.prog, "ns::e_from_str", lambda eng, st, body, L=L: [str_arg(eng, st, L)], m.var)
        bs = tuple(B("x", i) for i in range(L))
        take2(m, "ns::e_from_str", eng, rets, bs, True, "string of %d bytes" % L)
    if m.alloc:
        F = XFacts()
        F.add_ge(sub(N.sym("len(x)", 0, (1 << 63) - 1), CAP + 1))
        eng, rets = run(m.prog, "ns::e_from_str", lambda eng, st, body: [Str((("o", "x"),))], m.var, F)
        take2(m, "ns::e_from_str", eng, rets, (("o", "x"),), False, "longer string")


def take2(m, op, eng, rets, exp, inline, lay):
    r = eng.res
    m.res.steps += r.steps
    m.res.functions |= {f for f in r.functions if m.prog.bodies[f]["crate"] == "nominals"}
    for x, w, st in r.mismatches[:1]:
        m.bad(op, lay, x, w)
    for x, w, st in r.panics[:1]:
        m.bad(op, lay, "panics: " + x, w)
    for x, w, st in r.undecided[:1]:
        m.res.und.append((op, lay, x, w))
    for st, v in rets:
        try:
            got, sl = content(m.prog, v)
            if not same_content(got, exp, Dec(st.F)):
                m.bad(op, lay, "the content is %s where %s is expected" % (show_content(got), show_content(exp)))
            if inline is not None and (sl is not None) != inline:
                m.bad(op, lay, "the string is %s" % ("not inline although it fits" if inline else "inline although it does not fit"))
            m.note(v, op)
        except Mismatch as e:
            m.bad(op, lay, e.msg)
        except Undecided as e:
            m.res.und.append((op, lay, str(e), ""))
    m.res.ok += 1


# ------------------------------------------------------------- other operations (read, copy, convert)


def string_value(eng, st, v):
    """content of an owned std String"""
    if isinstance(v, HS):
        return flat(v.toks)
    raise Undecided("string %r" % (v,))


def read_ops(m, k):
    """operations that do not change the string"""
    c, n = m.states[k]
    old = layout_content(c, n)
    lay = show(n, k)
    prog = m.prog

    def payload(eng, v):
        if not isinstance(v, Adt) or len(v.f) != 1:
            raise Undecided("result %r" % (v,))
        return v.f[0]

    def is_inline(eng, st, v):
        if Dec(st.F)(v) != (n is not None):
            raise Mismatch("is_inline() is wrong")

    def deref_mut(eng, st, v):
        if not isinstance(v, Str):
            raise Undecided("deref_mut returns %r" % (v,))
        val = st.mem.get(("sym", "s"))
        got, sl = content(prog, val)
        if got != old:
            raise Mismatch("deref_mut() changes the content to %s" % show_content(got))
        if v.sl is not None and v.sl.p.root == ("sym", "s"):
            x = tuple(slice_vals(eng, st, v.sl))
            if sl is None or x != old or v.sl.p != Ptr(("sym", "s"), sl.p.path) or v.sl.start != sl.start:
                raise Mismatch("deref_mut() gives access to other bytes than the content: %s" % show_content(x))
        elif (flat(v.toks) if v.sl is None else tuple(slice_vals(eng, st, v.sl))) != old or sl is not None:
            raise Mismatch("deref_mut() gives access to other bytes than the content")

    def clone(eng, st, v):
        for w in (v, st.mem.get(("sym", "s"))):
            got, sl = content(prog, w)
            if got != old:
                raise Mismatch("the clone or the original holds %s" % show_content(got))
        if (n is None) and content(prog, v)[1] is not None:
            raise Mismatch("the clone of a heap string is inline")
        return [v]

    def clone_from(ss):
        want = x_content(ss)

        def chk(eng, st, v):
            val = st.mem.get(("sym", "s"))
            for w, what in ((val, "the string that was cloned into"), (st.mem.get(("sym", "x")), "the string that was cloned from")):
                got, sl = content(prog, w)
                if got != want:
                    raise Mismatch("clone_from(): %s holds %s" % (what, show_content(got)))
            return [] if ss[1] is None else [renamed(val, "x", "b")]

        return chk

    def try_into(eng, st, v):
        ok = is_ok(eng, v)
        if ok != (n is None):
            raise Mismatch("try_into_string() returns %s for a string that is %s" % ("Ok" if ok else "Err", "on the heap" if n is None else "inline"))
        if ok:
            got = string_value(eng, st, payload(eng, v))
        else:
            got = content(prog, payload(eng, v))[0]
        if got != old:
            raise Mismatch("the converted string holds %s" % show_content(got))
        return [] if ok else [payload(eng, v)]

    def into(eng, st, v):
        got = string_value(eng, st, v)
        if norm(got) != norm(old):
            raise Mismatch("the converted string holds %s" % show_content(got))

    out = []
    out += m.call("ns::e_is_inline", "ns::e_is_inline", c, None, is_inline, lay=lay)
    out += m.call("ns::e_deref_mut", "ns::e_deref_mut", c, None, deref_mut, lay=lay)
    if m.alloc:
        out += m.call("ns::heap::e_clone", "ns::heap::e_clone", c, None, clone, lay=lay)
        for src, ss in sources(m, k):
            out += m.call("ns::heap::e_clone_from", "ns::heap::e_clone_from", c, lambda eng, st, src=src: [other(st, src)], clone_from(ss), lay="%s, from %s" % (lay, show(ss[1], None)))
        out += m.call("ns::heap::e_try_into_string", "ns::heap::e_try_into_string", c, None, try_into, lay=lay)
        out += m.call("ns::heap::e_into_string", "ns::heap::e_into_string", c, None, into, lay=lay)
    return out


def renamed(v, a, b):
    """the value with the bytes called a0, a1 … called b0, b1 …"""
    names = {B(a, i): B(b, i) for i in range(CAP)}

    def go(v):
        if isinstance(v, Adt):
            return Adt(v.v, tuple(go(x) for x in v.f), v.ty)
        if isinstance(v, Arr):
            return Arr(tuple(names.get(x, x) if isinstance(x, P) else x for x in v.e))
        if isinstance(v, HS):
            return HS(tuple(("o", b if t[1] == a else t[1]) if t[0] == "o" else t for t in v.toks))
        return v

    return go(v)


def x_content(s):
    """content of the other string"""
    return tuple(B("x", i) for i in range(s[1])) if s[1] is not None else (("o", "x"),)


def other(st, val):
    """a reference to another string"""
    st.mem[("sym", "x")] = val
    return Ptr(("sym", "x"), ())


def sources(m, k):
    """(another string of its own bytes, its layout): some for every layout, every one for some"""
    some = [0, 1, 30, CAP, None]
    c, n = m.states[k]
    out = []
    for c2, n2 in list(m.states.values()):
        if n2 in some or n in some:
            v = renamed(c2, "b", "x")
            if n2 is None:
                v = heap_named(v, "x")
            out.append((v, (c2, n2)))
    return out


def heap_named(v, name):
    if isinstance(v, Adt):
        return Adt(v.v, tuple(heap_named(x, name) for x in v.f), v.ty)
    if isinstance(v, HS):
        return HS((("o", name),))
    return v


def alias_ops(m, k):
    """comparisons of a string with parts of itself, and with strings that share bytes with it"""
    c, n = m.states[k]
    if n is None:
        return
    sl = content(m.prog, c)[1]
    lay = show(n, k)
    for a, b in sorted({(0, n), (0, 0), (n, n), (0, 1), (0, n - 1), (0, n // 2), (1, n), (n - 1, n)}):
        if not 0 <= a <= b <= n:
            continue
        full = (a, b) == (0, n)
        for fn, f in (("eq_str", lambda e: e), ("eq_refstr", lambda e: e), ("ne_str", lambda e: not e), ("ne_refstr", lambda e: not e)):
            def want(eng, st, v, f=f, a=a, b=b):
                if b - a != n or full:
                    if Dec(st.F)(v) != f(b - a == n):
                        raise Mismatch("a string %s with bytes %d to %d of itself is wrong" % ("compared", a, b))

            def x(eng, st, a=a, b=b):
                return [Str((), Sl(Ptr(("sym", "s"), sl.p.path), sl.start + a, b - a))]

            m.call("cmp::ns::e_" + fn, "ns::e_" + fn, c, x, want, lay="%s, bytes %d to %d" % (lay, a, b))
        if a == 0:
            for fn, less, eq in (("lt_str", False, False), ("le_str", False, True), ("gt_str", True, False), ("ge_str", True, True)):

                def want(eng, st, v, less=less, eq=eq, b=b):
                    if Dec(st.F)(v) != (eq if b == n else less):
                        raise Mismatch("the order of a string and its first %d bytes is wrong" % b)

                m.call("cmp::ns::e_" + fn, "ns::e_" + fn, c, lambda eng, st, b=b: [Str((), Sl(Ptr(("sym", "s"), sl.p.path), sl.start, b))], want, lay="%s, first %d bytes" % (lay, b))
    for fn, r in (("eq", True), ("ne", False), ("lt", False), ("le", True), ("gt", False), ("ge", True)):

        def want(eng, st, v, r=r):
            if Dec(st.F)(v) != r:
                raise Mismatch("a string compared with itself is wrong")

        m.call("cmp::ns::e_" + fn, "ns::e_" + fn, c, lambda eng, st: [Ptr(("sym", "s"), ())], want, lay=lay)


def const_ops(m):
    eng, rets = run(m.prog, "ns::e_capacity", lambda eng, st, body: [], m.var)
    for st, v in rets:
        if v != CAP:
            m.bad("ns::e_capacity", "", "the documented inline capacity is %d, not %r" % (CAP, v))
    m.res.ok += 1
    if m.alloc:
        x = HS((("o", "x"),))

        def val(eng, st, body):
            return [x]

        def ref(eng, st, body):
            st.mem[("sym", "x")] = x
            return [Ptr(("sym", "x"), ())]

        eng, rets = run(m.prog, "ns::heap::e_from_string", val, m.var)
        take2(m, "ns::heap::e_from_string", eng, rets, (("o", "x"),), None, "any string")
        F = XFacts()
        F.add_ge(sub(N.sym("len(x)", 0, (1 << 63) - 1), CAP + 1))
        eng, rets = run(m.prog, "ns::heap::e_from_ref_string", ref, m.var, F)
        take2(m, "ns::heap::e_from_ref_string", eng, rets, (("o", "x"),), False, "longer string")
        for L in range(0, CAP + 1):
            def refb(eng, st, body, L=L):
                st.mem[("sym", "x")] = HS((("bytes",) + tuple(B("x", i) for i in range(L)),) if L else ())
                return [Ptr(("sym", "x"), ())]
            eng, rets = run(m.prog, "ns::heap::e_from_ref_string", refb, m.var)
            take2(m, "ns::heap::e_from_ref_string", eng, rets, tuple(B("x", i) for i in range(L)), True, "string of %d bytes" % L)
