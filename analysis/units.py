"""The numeral-writing entry points and what each must write."""
import num as N
from num import P, add, sub
import tables as TB
import specs as S
from engine import Engine, Program, XFacts, Adt, Arr, Str, Dec, boolsym, Cond
from models import Models


def nsym(t, name="n"):
    b = TB.BITS[t]
    return N.sym("%s@%s" % (name, t), 0, (1 << b) - 1)


class Unit:
    """one entry point: spec builder and argument builder"""

    def __init__(self, entry, prop, t, make, infallible=False):
        self.entry, self.prop, self.t, self.make, self.infallible = entry, prop, t, make, infallible


CJK = S.Coll.table(TB.POSITIONAL["CjkDecimal"], True)
NOFB = S.Coll(False, False, False, 0, None)


def coll_of(name):
    if name in TB.POSITIONAL:
        return S.Coll.table(TB.POSITIONAL[name], True)
    if name in TB.ALPHABETIC:
        return S.Coll.table(TB.ALPHABETIC[name], False, True)
    return S.Coll.table(TB.FIXED[name], False, False, True, CJK)


def sym_coll(eng, name, fallback):
    """the collection that eng.symval(.., "name") describes"""
    ident = N.sym(name + ".id", 0, (1 << 64) - 1)
    ln = N.sym(name + ".len", 0, (1 << 64) - 1)
    from models import digit_tok

    c = S.Coll(
        boolsym(name + ".has_zero"),
        boolsym(name + ".zero_based"),
        boolsym(name + ".fixed"),
        ln,
        lambda st, D, i: digit_tok(ident, i),
        fallback,
    )
    c.ident = ident
    return c


def plain(eng, t, names):
    """arguments: one unknown value per parameter; names gives them names"""

    def args(st, body):
        out = []
        for i in range(body["nargs"]):
            ty = body["locals"][i + 1]
            nm = names[i]
            out.append(nsym(t) if nm == "n" else eng.symval(st, ty, nm))
        return out

    return args


def chinese_unit(t, script, formal, usage, scale, value=None):
    """a number given by its decimal digits, written with the options that the entry point (or value) stands for"""
    b = TB.BITS[t]
    nd = len(str((1 << b) - 1))
    ds = tuple(N.sym("d%d@%s" % (i, t), 0, 9) for i in range(nd))
    x = 0
    for i, d in enumerate(ds):
        x = add(x, N.scale(d, 10**i))
    F = XFacts()
    F.add_ge(sub((1 << b) - 1, x))
    return (
        S.Chinese(script + "Chinese" + formal, script, usage, scale, formal == "Formal", b, x, ds),
        lambda st, body: [x] if value is None else [value, x],
        F,
    )


def build_units(prog, t):
    """[(entry, builder(eng) -> (spec, args, facts))]"""
    out = []
    b = TB.BITS[t]
    n = nsym(t)

    def unit(entry, names, mk, group):
        key = "%s::%s" % (t, entry)
        out.append((key, group, lambda eng: mk(eng) + (plain(eng, t, names), None)))

    for s in TB.ALL_SYSTEMS:
        e = "sys::%s::e_sys" % s
        if s in TB.POSITIONAL or s in TB.ALPHABETIC or s in TB.FIXED:
            unit(e, ("self", "n"), lambda eng, s=s: (S.Positional(s, coll_of(s), b, n),), "digits")
        elif s in TB.ADDITIVE:
            tab = [(S.chars(x), v) for x, v in TB.ADDITIVE[s]]
            z = [x for x, v in tab if v == 0]
            unit(e, ("self", "n"), lambda eng, s=s, tab=tab, z=z: (S.Additive(s, tab, b, n, z[0] if z else None),), "additive")
        elif s == "Hebrew":
            unit(e, ("self", "n"), lambda eng: (S.Hebrew("Hebrew", b, n),), "hebrew")
        elif s == "Ethiopic":
            unit(e, ("self", "n"), lambda eng: (S.Ethiopic("Ethiopic", b, n),), "ethiopic")
        else:
            tb, hz = TB.ENUMERATED[s]
            tk = tuple((("c", ord(c)),) for c in tb)
            unit(e, ("self", "n"), lambda eng, s=s, tk=tk, hz=hz: (S.Enumerated(s, tk, hz, b, n),), "enumerated")
    # collections
    FB = lambda eng: sym_coll(eng, "fb", NOFB)
    unit("e_collno", ("s", "n"), lambda eng: (S.Positional("any collection", sym_coll(eng, "s", NOFB), b, n),), "digits")
    unit("e_collfb", ("s", "n"), lambda eng: (S.Positional("any collection", sym_coll(eng, "s", FB(eng)), b, n),), "digits")
    # the fallback's fallback; a fallback without digits that is its own fallback
    unit("e_colltwo", ("s", "n"), lambda eng: (S.Positional("any collection", sym_coll(eng, "s", sym_coll(eng, "fbtwo", FB(eng))), b, n),), "fallback")

    def mkself(eng):
        f = sym_coll(eng, "fbself", None)
        F = XFacts()
        F.add_eq(f.ln)
        return S.Positional("any collection", sym_coll(eng, "s", f), b, n), plain(eng, t, ("s", "n")), F

    out.append(("%s::e_collself" % t, "fallback", mkself))
    for e, fb in (("e_collno", lambda eng: NOFB), ("e_collfb", FB)):
        for tag, v in (("open", 0), ("fixed", 1)):

            def mkc(eng, fb=fb, v=v):
                F = XFacts()
                F.add_eq(sub(N.sym("s.fixed", 0, 1), v))
                return S.Positional("any collection", sym_coll(eng, "s", fb(eng)), b, n), plain(eng, t, ("s", "n")), F

            out.append(("%s::%s#%s" % (t, e, tag), "coll_" + tag, mkc))
    unit("e_nofallback", ("s", "n"), lambda eng: (S.Positional("NoFallback", NOFB, b, n),), "digits")

    K = N.sym("k", 0, (1 << 64) - 1)
    NO = lambda eng: NOFB
    for nm, fb in (("no", NO), ("fb", FB)):
        unit("e_onebased_" + nm, ("c", "n"), lambda eng, fb=fb: (S.Positional("OneBased", S.one_based(sym_coll(eng, "c", fb(eng))), b, n),), "combine")
        unit("e_restrict_" + nm, ("k", "c", "n"), lambda eng, fb=fb: (S.Positional("Restrict", S.restrict(K, sym_coll(eng, "c", fb(eng))), b, n),), "combine")
    A, B = "a", "b"

    def mkchain(eng):
        x, y = sym_coll(eng, "a", NOFB), sym_coll(eng, "b", NOFB)
        F = XFacts()
        F.add_ge(sub((1 << 64) - 1, add(x.ln, y.ln)))
        return S.Positional("Chain", S.chain(x, y), b, n), plain(eng, t, ("a", "b", "n")), F

    out.append(("%s::e_chain_no" % t, "combine", mkchain))
    unit("e_stem_onebased", ("s", "n"), lambda eng: (S.Positional("OneBased(CjkHeavenlyStem)", S.one_based(coll_of("CjkHeavenlyStem")), b, n),), "combine")
    unit("e_letter_onebased", ("s", "n"), lambda eng: (S.Positional("OneBased(LetterUpper)", S.one_based(coll_of("LetterUpper")), b, n),), "combine")
    for k in (0, 1, 3):
        for f, hz in (("t", True), ("f", False)):
            e = "e_set%d%s" % (k, f)
            names = ("a", "n") if k else ("n",)
            tab = tuple(N.sym("a[%d]" % i, 0, 0x10FFFF) for i in range(k))
            unit(e, names, lambda eng, tab=tab, hz=hz: (S.Positional("DigitSet", S.Coll.table(tab, hz), b, n),), "sets")
    tab300 = tuple(N.sym("a[%d]" % i, 0, 0x10FFFF) for i in range(300))
    unit("e_set300f", ("a", "n"), lambda eng: (S.Positional("OneBased(DigitSet<300>)", S.one_based(S.Coll.table(tab300, False)), b, n),), "sets")
    unit("e_set300t", ("a", "n"), lambda eng: (S.Positional("DigitSet<300>", S.Coll.table(tab300, True), b, n),), "sets")
    tab40 = [((("tok", ("o", "a[%d]" % i)),), 1 << (38 - i)) for i in range(39)]
    zero40 = (("tok", ("o", "a[39]")),)
    unit("e_add40", ("a", "n"), lambda eng: (S.Additive("AdditiveSet<40>", tab40, b, n, zero40),), "sets")
    # additive sets with unknown symbols and weights
    for k in (0, 1, 2, 3):
        tab = []
        for i in range(k):
            tab.append(((("tok", ("o", "a[%d].0" % i)),), N.sym("a[%d].1" % i, 0, (1 << 128) - 1)))

        def mkadd(eng, tab=tab, k=k):
            F = XFacts()
            for i in range(k - 1):
                F.add_ge(sub(sub(tab[i][1], tab[i + 1][1]), 1))
            return S.additive_any(tab, b, n), plain(eng, t, ("a", "n") if k else ("n",)), F

        out.append(("%s::e_add%d" % (t, k), "sets", mkadd))
    for k in (0, 3, 70):
        for f, hz in (("t", True), ("f", False)):
            tab = tuple((("o", "a[%d]" % i),) for i in range(k))
            unit("e_enum%d%s" % (k, f), ("a", "n") if k else ("n",), lambda eng, tab=tab, hz=hz: (S.Enumerated("EnumeratedSet", tab, hz, b, n),), "enumerated")
    # Chinese
    for script in ("Simplified", "Traditional"):
        for formal in ("Formal", "Informal"):
            for usage in ("ordinary", "financial"):
                for scale in ("myriad", "short", "mid", "long"):

                    def mk(eng, script=script, formal=formal, usage=usage, scale=scale):
                        return chinese_unit(t, script, formal, usage, scale)

                    out.append(("%s::chinese::%sChinese%s::e_%s_%s" % (t, script, formal, usage, scale), "chinese", mk))
    # default rendering
    def inf(entry, names, c):
        def mk(eng):
            return S.Positional(entry, c(eng), b, n, infallible=True), plain(eng, t, names), None

        out.append(("%s::%s" % (t, entry), "fallback", mk))

    inf("e_format", ("s", "n"), lambda eng: sym_coll(eng, "s", FB(eng)))
    inf("e_to_nominal", ("s", "n"), lambda eng: sym_coll(eng, "s", FB(eng)))
    inf("e_decimal_of", ("n",), lambda eng: S.DECIMAL)
    unit("e_try_to_nominal", ("s", "n"), lambda eng: (S.Positional("any collection", sym_coll(eng, "s", FB(eng)), b, n),), "fallback")
    return out


def run_unit(prog, mk, key, oom=False, exact=False, mode="tok", free=False, pins=(), maxsteps=None, hold=None, **opts):
    """free: any text is accepted; pins: [(input, value)], the part of the inputs that is looked at"""
    eng = Engine(prog, Models(mode), oom=oom)
    if maxsteps:
        eng.MAXSTEPS = maxsteps
    eng.opts.update(opts)
    spec, args, F = mk(eng)
    if free and not (oom and getattr(spec, "infallible", False)):
        # (what the decimal fallback of the decimal fallback needs is only known to the text's specification)
        spec = S.AnySpec(spec)
    spec.exact = exact
    if pins:
        F = F or XFacts()
        for i, v in pins:
            p = P((((i,), 1),), 0)
            if not F.add_ge(sub(p, v)) or not F.add_ge(sub(v, p)):
                return eng, spec
    eng.spec = spec
    if hold is not None:
        hold.append((eng, spec))
    st = eng.start(key, args, ghost=spec.ghost(), facts=F)
    eng.run(st)
    return eng, spec
