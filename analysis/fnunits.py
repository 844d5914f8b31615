"""Units for functions whose answer is a plain value: accessors of digit collections, builders,
comparisons, forwarding implementations."""
import num as N
import tables as TB
import specs as S
import units as U
from num import add, sub
from engine import Adt, Arr, Ptr, Str, NS, HS, SymE, Op, Cond, Dec, XFacts, Mismatch, Undecided, boolsym, c_eval, c_eq, c_not, UNIT
from models import digit_tok

U64 = (1 << 64) - 1


class FnSpec(S.Spec):
    """check(eng, st, D, value) raises Mismatch"""

    def __init__(self, name, check):
        S.Spec.__init__(self, name)
        self.check = check

    def ghost(self):
        return (0, ("-",))

    def oom_ghost(self):
        return (0, ("-",))

    def flush(self, eng, st):
        pass

    def on_return(self, eng, st, v):
        self.check(eng, st, Dec(st.F), v)
        self.count("value")


def same(st, D, v, e):
    """is the value v the expected e (numbers, booleans, characters)?"""
    if isinstance(e, tuple):  # a character of a table
        return S.match_q(st, D, ("c", v), e)
    if isinstance(v, (bool, Cond)) or isinstance(e, (bool, Cond)):
        return D(v) == D(e)
    if isinstance(e, (int, N.P)) and isinstance(v, (int, N.P)):
        if v == e:
            return True
        return S.same_char(st, D, v, e)
    return v == e


def num_eq(want):
    def chk(eng, st, D, v):
        w = want(st, D) if callable(want) else want
        if isinstance(v, (bool, Cond)) or isinstance(w, (bool, Cond)):
            ok = D(v) == D(w)
        else:
            ok = D.eq(sub(v, w), 0)
        if not ok:
            raise Mismatch("returns %r where %r is expected" % (v, w))

    return chk


def char_is(want):
    def chk(eng, st, D, v):
        w = want(st, D)
        if not same(st, D, v, w):
            raise Mismatch("the digit %s where %s is expected" % (S.show_tok(("c", v)), S.show_exp(w)))

    return chk


def coll_units(out, mod, names, mkcoll, mkfb, assume=None, group="combine", zb_always=False):
    """the ten accessors of a digit collection"""

    def unit(fn, mk, nm=names):
        key = "%s::%s" % (mod, fn)

        def build(eng):
            F = XFacts()
            c, f = mkcoll(eng), mkfb(eng)
            if assume:
                assume(F, c, f)
            spec, extra = mk(eng, c, f)
            for e in extra:
                F.add_ge(e)
            return spec, plain(eng, nm), F

        out.append((key, key, group, build))

    i = N.sym("i", 0, U64)
    num = lambda fn, get, which: unit(fn, lambda eng, c, f: (FnSpec(mod + "." + fn, num_eq(lambda st, D: get(f if which else c, D))), []))
    num("e_fixed", lambda c, D: c.fixed, 0)
    num("e_has_zero", lambda c, D: c.has_zero, 0)
    num("e_len", lambda c, D: c.len(D), 0)
    num("e_is_empty", lambda c, D: D.eq(c.len(D), 0), 0)
    num("e_fallback_len", lambda c, D: c.len(D), 1)
    num("e_fallback_fixed", lambda c, D: c.fixed, 1)
    num("e_fallback_has_zero", lambda c, D: c.has_zero, 1)

    def zb(which):
        def mk(eng, c, f):
            c = f if which else c

            def chk(eng, st, D, v):
                if D(c.has_zero) or which and D.eq(c.len(D), 0):
                    return  # not used
                num_eq(c.zero_based)(eng, st, D, v)

            return FnSpec(mod + ".zero_based", chk), []

        return mk

    unit("e_zero_based", zb(0))
    unit("e_fallback_zero_based", zb(1))

    def dig(which):
        def mk(eng, c, f):
            c = f if which else c

            def chk(eng, st, D, v):
                if D.ge(i, c.len(D)):
                    return
                char_is(lambda st, D: c.digit(st, D, i))(eng, st, D, v)

            return FnSpec(mod + ".digit", chk), []

        return mk

    for fn, w in (("e_digit", 0), ("e_fallback_digit", 1)):
        if (mkfb if w else mkcoll)(None).ln == 0:
            continue  # no digit exists

        def build(eng, w=w, fn=fn):
            F = XFacts()
            c, f = mkcoll(eng), mkfb(eng)
            if assume:
                assume(F, c, f)
            x = f if w else c
            ln = x.ln
            if not callable(ln):
                F.add_ge(sub(sub(ln, i), 1))
            else:
                for q in x.bounds_of_len:
                    F.add_ge(sub(sub(q, i), 1))
            spec, _ = dig(w)(eng, c, f)
            return spec, plain(eng, names + ("i",)), F

        key = "%s::%s" % (mod, fn)
        out.append((key, key, group, build))


def plain(eng, names):
    def args(st, body):
        out = []
        for j in range(body["nargs"]):
            ty = body["locals"][j + 1]
            t = eng.prog.types[ty]
            if names[j] == "i":
                out.append(N.sym("i", 0, U64))
            elif names[j] == "k":
                out.append(N.sym("k", 0, U64))
            else:
                out.append(eng.symval(st, ty, names[j]))
        return out

    return args


def build_fn_units(prog, alloc=True):
    """[(id, entry, group, build)]"""
    out = []
    # the built-in digit collections
    for s in list(TB.POSITIONAL) + list(TB.ALPHABETIC) + list(TB.FIXED) + ["NoFallback"]:
        c = U.NOFB if s == "NoFallback" else U.coll_of(s)
        if s in TB.FIXED:
            fb = U.CJK
        else:
            fb = S.Coll(False, True, False, 0, None)
        if s == "NoFallback":
            c = S.Coll(False, True, False, 0, None)
        coll_units(out, "digits::" + s, ("s",), lambda eng, c=c: c, lambda eng, fb=fb: fb, group="tables")
    # combinators
    FB = lambda eng: U.sym_coll(eng, "fb", U.NOFB)
    for m in ("onebased", "one_based"):
        coll_units(out, "comb::" + m, ("c",), lambda eng: S.one_based(U.sym_coll(eng, "c", FB(eng))), FB)
    K = N.sym("k", 0, U64)

    def mkr(eng):
        c = U.sym_coll(eng, "c", FB(eng))
        r = S.restrict(K, c)
        r.bounds_of_len = (K, c.ln)
        return r

    coll_units(out, "comb::restrict", ("k", "c"), mkr, FB)
    for m in ("chain", "and"):
        mk = lambda eng: S.chain(U.sym_coll(eng, "a", FB(eng)), U.sym_coll(eng, "b", FB(eng)))

        def mkc(eng, mk=mk):
            a, b = U.sym_coll(eng, "a", None), U.sym_coll(eng, "b", None)
            r = mk(eng)
            r.ln = add(a.ln, b.ln)
            return r

        def mkf(eng):
            # the fallbacks, chained
            a, b = U.sym_coll(eng, "fb", None), U.sym_coll(eng, "fb2", None)
            r = S.chain(a, b)
            r.ln = add(a.ln, b.ln)
            return r

        def assume(F, c, f):
            F.add_ge(sub(U64, c.ln))
            F.add_ge(sub(U64, f.ln))

        coll_units(out, "comb::" + m, ("a", "b"), mkc, mkf, assume)
    for k in (0, 3):
        for f, hz in (("t", True), ("f", False)):
            tab = tuple(N.sym("a[%d]" % j, 0, 0x10FFFF) for j in range(k))
            c = S.Coll.table(tab, hz)
            e = S.Coll(False, True, False, 0, None)
            coll_units(out, "comb::set%d%s" % (k, f), ("a",) if k else (), lambda eng, c=c: c, lambda eng, e=e: e, group="combine")
    # AdditiveSet::new
    for k in (0, 1, 2, 3, 4, 40):
        tab = [N.sym("a[%d].1" % j, 0, (1 << 128) - 1) for j in range(k)]

        def build(eng, k=k, tab=tab):
            def chk(eng, st, D, v):
                for j in range(k - 1):
                    if D.ge(tab[j + 1], tab[j]):
                        raise Mismatch("accepts symbols that are not in strictly descending order")
                v = find_arr(v)
                if v is None or len(v.e) != k:
                    raise Undecided("contents of AdditiveSet")
                for j in range(k):
                    x = v.e[j]
                    if not isinstance(x, Adt) or len(x.f) != 2:
                        raise Undecided("contents of AdditiveSet")
                    if x.f[0] != Str((("o", "a[%d].0" % j),)) or x.f[1] != tab[j]:
                        raise Mismatch("the symbols are not kept as they were given")

            sp = FnSpec("AdditiveSet::new", chk)
            sp.panic_ok = lambda st: not_descending(st, tab)
            return sp, plain(eng, ("a",)), None

        key = "sets::e_additive_new%d" % k
        out.append((key, key, "sets", build))
    cmp_units(out, alloc)
    value_units(out)
    for t in TB.BITS:
        conv_units(out, t)
        fmt_units(out, prog, t)
        default_units(out, t)
        if alloc:
            dyn_units(out, t)
    return out


def value_units(out):
    """equality, clones and defaults of systems, options, combinators and errors: by value"""

    def unit(key, uid, want, args, bits=64):
        def build(eng):
            vs = [N.sym(a, 0, (1 << bits) - 1) if isinstance(a, str) else a for a in args]
            w = want(vs) if callable(want) else want
            return FnSpec(uid, num_eq(w)), (lambda st, body: list(vs)), None

        out.append((uid, key, "values", build))

    for script in ("Simplified", "Traditional"):
        for f in ("Formal", "Informal"):
            m = "vals::%sChinese%s::" % (script, f)
            for a in [(u, k) for u in (0, 1) for k in range(4)]:
                unit(m + "e_clone", m + "e_clone/%d%d" % a, True, a)
                for b in [(u, k) for u in (0, 1) for k in range(4)]:
                    unit(m + "e_eq", m + "e_eq/%d%d_%d%d" % (a + b), a == b, a + b)
                    unit(m + "e_ne", m + "e_ne/%d%d_%d%d" % (a + b), a != b, a + b)
    for sy in list(TB.POSITIONAL) + list(TB.ALPHABETIC) + list(TB.ENUMERATED) + ["NoFallback"]:
        for e, w in (("eq", True), ("ne", False), ("clone", True)):
            unit("vals::%s::e_%s" % (sy, e), "vals::%s::e_%s" % (sy, e), w, ())
    same1 = lambda vs: lambda st, D: D.eq(vs[0], vs[1])
    same2 = lambda vs: lambda st, D: D.eq(vs[0], vs[2]) and D.eq(vs[1], vs[3])
    neg = lambda f: lambda vs: lambda st, D: not f(vs)(st, D)
    for x, sm, na in (("restrict", same1, 1), ("onebased", same1, 1), ("chain", same2, 2)):
        unit("vals::e_%s_eq" % x, "vals::e_%s_eq" % x, sm, ("a", "b", "c", "d")[: 2 * na])
        unit("vals::e_%s_ne" % x, "vals::e_%s_ne" % x, neg(sm), ("a", "b", "c", "d")[: 2 * na])
        unit("vals::e_%s_clone" % x, "vals::e_%s_clone" % x, True, ("a", "b")[:na])
    for x in ("restrict_default", "chain_default", "oom_eq", "oom_clone"):
        unit("vals::e_" + x, "vals::e_" + x, True, ())
    unit("vals::e_oom_ne", "vals::e_oom_ne", False, ())
    for t, bits in TB.BITS.items():
        for x in "zmb":
            unit("%s::errs::e_clone_%s" % (t, x), "%s::errs::e_clone_%s" % (t, x), True, ("a",), bits)
            for y in "zmb":
                w = (lambda vs: False) if x != y else (lambda vs: True) if x == "z" else same1
                nw = (lambda vs: True) if x != y else (lambda vs: False) if x == "z" else neg(same1)
                unit("%s::errs::e_eq_%s%s" % (t, x, y), "%s::errs::e_eq_%s%s" % (t, x, y), w, ("a", "b"), bits)
                unit("%s::errs::e_ne_%s%s" % (t, x, y), "%s::errs::e_ne_%s%s" % (t, x, y), nw, ("a", "b"), bits)


def not_descending(st, tab):
    F = st.F.copy()
    for j in range(len(tab) - 1):
        if not F.add_ge(sub(sub(tab[j], tab[j + 1]), 1)):
            return True
    return F.infeasible() if hasattr(F, "infeasible") else False


def find_arr(v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, Adt):
        for x in v.f:
            r = find_arr(x)
            if r is not None:
                return r
    return None


def conv_units(out, t):
    n = U.nsym(t)
    iz = lambda eng: (FnSpec("is_zero", num_eq(lambda st, D: D.eq(n, 0))), lambda st, body: [n], None)
    out.append(("%s::e_is_zero" % t,) * 2 + ("convert", iz))

    def au(eng):
        F = XFacts()
        F.add_ge(sub(U64, n))
        return FnSpec("as_usize", num_eq(n)), (lambda st, body: [n]), F

    out.append(("%s::e_as_usize" % t,) * 2 + ("convert", au))
    # the error of a push, completed with the number
    for i, var in enumerate(("Ok", "Err")):

        def wn(eng, i=i):
            body = eng.prog.bodies["%s::e_with_nominal" % t]
            ty = body["locals"][1]
            oom = eng.prog.types[ty]["v"][1]["f"][0][1]

            def chk(eng, st, D, v):
                want = Adt(0, (NS((), ("o", "answer"), ()),), v.ty) if isinstance(v, Adt) else None
                if i == 0:
                    if v != want:
                        raise Mismatch("with_nominal: an error is returned, or another value, where there was none")
                    return
                e = v.f[0] if isinstance(v, Adt) and v.v == 1 else None
                if not isinstance(e, Adt):
                    raise Mismatch("with_nominal: no error is returned for an error")
                if eng.prog.types[e.ty]["v"][e.v]["n"] != "OutOfMemory" or not D.eq(e.f[0], n):
                    raise Mismatch("with_nominal: the error is not OutOfMemory with the number that was given")

            val = Adt(i, (NS((), ("o", "answer"), ()) if i == 0 else Adt(0, (), oom),), ty)
            return FnSpec("with_nominal", chk), (lambda st, bd: [val, n]), None

        out.append(("%s::e_with_nominal/%s" % (t, var), "%s::e_with_nominal" % t, "convert", wn))
    # Result::unwrap_or_decimal and Error::into_decimal, for each kind of result
    b = TB.BITS[t]
    for e, var in (("e_unwrap_or_decimal", "Ok"), ("e_unwrap_or_decimal", "NoZeroSymbol"), ("e_unwrap_or_decimal", "OutOfBounds"), ("e_unwrap_or_decimal", "OutOfMemory"), ("e_into_decimal", "NoZeroSymbol"), ("e_into_decimal", "OutOfBounds"), ("e_into_decimal", "OutOfMemory")):

        def build(eng, e=e, var=var):
            key = "%s::%s" % (t, e)
            body = eng.prog.bodies[key]
            ty = body["locals"][1]
            if var == "Ok":

                def chk(eng, st, D, v):
                    if v != NS((), ("o", "answer"), ()):
                        raise Mismatch("the string of an Ok result is not returned as it is")

                return FnSpec("unwrap_or_decimal", chk), (lambda st, bd: [Adt(0, (NS((), ("o", "answer"), ()),), ty)]), None
            ety = ty if e == "e_into_decimal" else eng.prog.types[ty]["v"][1]["f"][0][1]
            et = eng.prog.types[ety]
            vi = [x["n"] for x in et["v"]].index(var)
            val = Adt(vi, (n,) if et["v"][vi]["f"] else (), ety)
            if e != "e_into_decimal":
                val = Adt(1, (val,), ty)
            sp = S.Positional(e, S.DECIMAL, b, 0 if var == "NoZeroSymbol" else n, infallible=True)
            return sp, (lambda st, bd: [val]), None

        out.append(("%s::%s/%s" % (t, e, var), "%s::%s" % (t, e), "render", build))


class Tried:
    """the system's own try_format_nominal(), called with the number, answers with a given result"""

    def contract(self, eng, st, callee, args, rty):
        if callee["path"] != "nominals::NominalSystem::try_format_nominal":
            return None
        a = args[0]
        while isinstance(a, Ptr) and a.root[0] != "sym":
            a = eng.load(st, a)
        if not (isinstance(a, Ptr) and a.root == ("sym", "s")) and root_name(a) != "s":
            return None
        if not (args[1] == self.arg or Dec(st.F).eq(sub(args[1], self.arg), 0)):
            raise Mismatch("the system is asked for another number")
        st.ev = st.ev + (("try",),)
        return self.answer(eng, rty)

    def answer(self, eng, ty):
        if self.var == "Ok":
            return Adt(0, (NS((), ("o", "answer"), ()),), ty)
        ety = eng.prog.types[ty]["v"][1]["f"][0][1]
        et = eng.prog.types[ety]
        vi = [x["n"] for x in et["v"]].index(self.var)
        return Adt(1, (Adt(vi, (self.arg,) if et["v"][vi]["f"] else (), ety),), ty)


class TriedOk(Tried, FnSpec):
    var = "Ok"


class TriedErr(Tried, S.Positional):
    def on_return(self, eng, st, v):
        if not st.ev:
            raise Mismatch("the system's own answer is not asked for")
        S.Positional.on_return(self, eng, st, v)


def fmt_units(out, prog, t):
    """format_nominal(): the text of try_format_nominal(), or the decimal digits"""
    b = TB.BITS[t]
    n = U.nsym(t)
    for key in prog.entries:
        if not (key.startswith(t + "::") and key.endswith("::e_fmt")):
            continue
        for var in ("Ok", "NoZeroSymbol", "OutOfBounds", "OutOfMemory"):

            def build(eng, key=key, var=var):
                if var == "Ok":

                    def chk(eng, st, D, v):
                        if not st.ev:
                            raise Mismatch("the system's own answer is not asked for")
                        if v != NS((), ("o", "answer"), ()):
                            raise Mismatch("the system's text is not returned as it is")

                    sp = TriedOk("fmt", chk)
                else:
                    sp = TriedErr("fmt", S.DECIMAL, b, 0 if var == "NoZeroSymbol" else n, infallible=True)
                    sp.var = var
                sp.arg = n
                return sp, U.plain(eng, t, ("s", "n")), None

            out.append(("%s/%s" % (key, var), key, "render", build))


def root_name(o):
    o = o.name if isinstance(o, Op) else o
    while isinstance(o, tuple):
        o = o[1] if o[0] in ("inner", "box", "dyn", "sym") else o[0]
    return o


def forwarded(names, recv, n):
    """exactly one call of the named method, on the same object, with the same number; its answer is the result"""

    def chk(eng, st, D, v):
        ev = [e for e in st.ev]
        if len(ev) != 1 or ev[0][0] not in names:
            raise Mismatch("calls %s where exactly one call of %s is expected" % ([e[0] for e in ev], names[0]))
        a = ev[0][1]
        if not recv(a[0]):
            raise Mismatch("the call is not made on the wrapped system")
        if not (a[1] == n or D.eq(sub(a[1], n), 0)):
            raise Mismatch("the number is not passed on as it is")
        ans = "answer0_%s" % ev[0][0]
        if isinstance(v, SymE):
            if v.name != ans:
                raise Mismatch("the answer is not returned as it is")
        elif isinstance(v, NS):
            if v != NS((), ("o", ans), ()):
                raise Mismatch("the answer is not returned as it is")
        elif isinstance(v, Adt) and st.F.en.get(ans) is not None:
            w = eng.enum_variant(st, SymE(ans, v.ty), st.F.en[ans])
            if not same_enum(eng, st, v, w):
                raise Mismatch("the answer is not returned as it is")
        else:
            raise Undecided("answer %r" % (v,))

    return chk


def same_enum(eng, st, v, w):
    if isinstance(w, SymE) and isinstance(v, Adt):
        k = st.F.en.get(w.name)
        if k is None:
            return False
        w = eng.enum_variant(st, w, k)
    if isinstance(v, Adt) and isinstance(w, Adt):
        return v.v == w.v and len(v.f) == len(w.f) and all(same_enum(eng, st, a, b) for a, b in zip(v.f, w.f))
    if isinstance(v, SymE) and isinstance(w, SymE):
        return v.name == w.name
    return v == w


def dyn_units(out, t):
    n = U.nsym(t)
    for p in ("box", "rc", "arc"):
        for m, name in (("try", "try_format_nominal"), ("fmt", "format_nominal")):

            def build(eng, name=name):
                sp = FnSpec("dyn", forwarded((name,), lambda r: isinstance(r, Op) and root_name(r) == "s", n))
                return sp, U.plain(eng, t, ("s", "n")), None

            key = "%s::dynamic::e_%s_%s" % (t, p, m)
            out.append((key, key, "dyn", build))


def default_units(out, t):
    n = U.nsym(t)
    for e, name in (("e_to_nominal_custom", "vp_custom_fmt"), ("e_try_to_nominal_custom", "vp_custom_try")):

        def build(eng, name=name):
            sp = FnSpec(name, forwarded((name,), lambda r: isinstance(r, Adt), n))
            return sp, U.plain(eng, t, ("s", "n")), None

        key = "%s::%s" % (t, e)
        out.append((key, key, "dyn", build))


def cmp_units(out, alloc):
    """comparisons and Display of strings: those of the content"""
    from models import order_of

    A, X = (("base", ("o", "s")),), (("o", "x"),)

    def unit(fn, other, chk):
        key = "ns::" + fn

        def build(eng):
            def args(st, body):
                tys = [body["locals"][i + 1] for i in range(body["nargs"])]
                out = [eng.symval(st, tys[0], "s")]
                if len(tys) > 1:
                    out.append(eng.symval(st, tys[1], "x"))
                return out

            def check(eng, st, D, v):
                eng.pair = A, X if other == "str" else (("base", ("o", "x")),)
                o = order_of(st, *eng.pair)
                F = st.F.copy()
                if o == 1 and not F.add_eq(sub(N.sym("len(s)", 0, 1 << 63), N.sym("len(x)", 0, 1 << 63))):
                    return
                chk(eng, st, D, v, o)

            return FnSpec(key, check), args, None

        out.append((key, key, "cmp", build))
        # the same with strings of some lengths and unknown bytes (for code that looks at these)
        for la, lb in ((0, 0), (0, 1), (1, 1), (2, 1), (3, 3), (62, 62), (62, 63), (100, 100)):

            def build(eng, la=la, lb=lb):
                P1 = tuple(N.sym("s[%d]" % i, 0, 127) for i in range(la))
                P2 = tuple(N.sym("x[%d]" % i, 0, 127) for i in range(lb))

                def put(st, ty, nm, bs):
                    v = eng.symval(st, ty, nm)
                    toks = (("bytes",) + bs,) if bs else ()
                    loc, w = None, v
                    while isinstance(w, Ptr):
                        loc, w = w, eng.load(st, w)
                    if isinstance(w, NS):
                        w = NS((), None, toks)
                    elif isinstance(w, HS):
                        w = HS(toks)
                    elif isinstance(w, Str):
                        w = Str(toks)
                    else:
                        raise Undecided("argument %r" % (w,))
                    if loc is None:
                        return w
                    eng.store(st, loc, w)
                    return v

                def args(st, body):
                    tys = [body["locals"][i + 1] for i in range(body["nargs"])]
                    return [put(st, tys[0], "s", P1), put(st, tys[1], "x", P2)]

                def check(eng, st, D, v):
                    eng.pair = [(("bytes",) + p,) if p else () for p in (P1, P2)]
                    for a, b, f in ((P1, P2, 0), (P2, P1, 1)):
                        o = st.F.en.get(("cmp", (("bytes",) + a,) if a else (), (("bytes",) + b,) if b else ()))
                        if o is not None:
                            return chk(eng, st, D, v, 2 - o if f else o)
                    for a, b in zip(P1, P2):
                        if D.eq(a, b):
                            continue
                        return chk(eng, st, D, v, 0 if D.lt(a, b) else 2)
                    chk(eng, st, D, v, 0 if la < lb else 1 if la == lb else 2)

                return FnSpec(key, check), args, None

            out.append(("%s/%d,%d bytes" % (key, la, lb), key, "cmp", build))

    def truth(f):
        def chk(eng, st, D, v, o):
            if D(v) != f(o):
                raise Mismatch("the comparison does not agree with that of the contents")

        return chk

    def ordering(opt):
        def chk(eng, st, D, v, o):
            if opt:
                if not isinstance(v, Adt):
                    raise Undecided("result %r" % (v,))
                if not v.f:
                    raise Mismatch("the comparison gives no answer")
                v = v.f[0]
            if not isinstance(v, Adt):
                raise Undecided("result %r" % (v,))
            if v.v != o:
                raise Mismatch("the order does not agree with that of the contents")

        return chk

    def larger(s):
        def chk(eng, st, D, v, o):
            from models import skey

            k = skey(eng, st, v)
            if o == s and k != tuple(eng.pair[0]) or o == 2 - s and k != tuple(eng.pair[1]) or k not in [tuple(p) for p in eng.pair]:
                raise Mismatch("the %s of two strings is not the one by content" % ("larger" if s else "smaller"))

        return chk

    eq, ne = (lambda o: o == 1), (lambda o: o != 1)
    for fn, other, c in (
        ("e_eq_str", "str", truth(eq)), ("e_eq_refstr", "str", truth(eq)), ("e_ne_str", "str", truth(ne)),
        ("e_ne_refstr", "str", truth(ne)), ("e_eq", "ns", truth(eq)), ("e_ne", "ns", truth(ne)),
        ("e_cmp", "ns", ordering(0)), ("e_partial_cmp", "ns", ordering(1)), ("e_partial_cmp_str", "str", ordering(1)),
        ("e_lt", "ns", truth(lambda o: o == 0)), ("e_le", "ns", truth(lambda o: o <= 1)),
        ("e_gt", "ns", truth(lambda o: o == 2)), ("e_ge", "ns", truth(lambda o: o >= 1)),
        ("e_lt_str", "str", truth(lambda o: o == 0)), ("e_le_str", "str", truth(lambda o: o <= 1)),
        ("e_gt_str", "str", truth(lambda o: o == 2)), ("e_ge_str", "str", truth(lambda o: o >= 1)),
        ("e_max", "val", larger(2)), ("e_min", "val", larger(0)),
    ):
        unit(fn, other, c)
    if alloc:
        unit("heap::e_eq_string", "str", truth(eq))
        unit("heap::e_ne_string", "str", truth(ne))
        unit("heap::e_lt_string", "str", truth(lambda o: o == 0))
        unit("heap::e_le_string", "str", truth(lambda o: o <= 1))
        unit("heap::e_gt_string", "str", truth(lambda o: o == 2))
        unit("heap::e_ge_string", "str", truth(lambda o: o >= 1))
        unit("heap::e_partial_cmp_string", "str", ordering(1))

    def display(eng):
        def chk(eng, st, D, v):
            if len(st.ev) != 1:
                raise Mismatch("Display writes in %d parts" % len(st.ev))
            path, vals = st.ev[0]
            asked = [st.F.en.get("fmt." + o) for o in ("width", "precision")]
            if not (path.endswith("Display::fmt") or path.endswith("::pad") or path.endswith("::write_str") and asked == [0, 0]):
                raise Mismatch("Display does not apply the formatter's options to the content (%s)" % path)
            c = [x for x in vals if isinstance(x, tuple) and x and x[0] == "str"]
            if not c or c[0][1] != A:
                raise Mismatch("Display does not write the content")
            if not (isinstance(v, SymE) and v.name == "fmt1"):
                raise Mismatch("Display does not return the formatter's result")

        return FnSpec("Display", chk), plain(eng, ("s", "f")), None

    out.append(("ns::e_display", "ns::e_display", "cmp", display))
