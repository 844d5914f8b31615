"""What the numeral systems need of the string type: the operations that a family of systems calls (found in
the call graph from its entry points), on the layouts that these operations reach, with the characters and
symbols that the family writes."""
import re

import num as N
import tables as TB
from strunits import B, CAP, CH, Machine, Mismatch, Undecided, XFacts, Str, canon, char_bytes, Dec, content, flat, layout_content, push_want, run, same_content, show, str_arg, sub, take, take2

OPS = {
    "new": re.compile(r"NominalString::new$"),
    "new_reverse": re.compile(r"NominalString::new_reverse$"),
    "default": re.compile(r"<nominals::NominalString as core::default::Default>::default$"),
    "from_char": re.compile(r"<nominals::NominalString as core::convert::From<char>>::from$"),
    "from_str": re.compile(r"<nominals::NominalString as core::convert::From<&(?:'\w+ )?str>>::from$"),
    "push": re.compile(r"NominalString::try_push$"),
    "push_front": re.compile(r"NominalString::try_push_front$"),
    "push_str": re.compile(r"NominalString::try_push_str$"),
}
OWNER = re.compile(r"^<?(nominals::|<)?(nominals::)?(nominalstring::|NominalString\b)")
ALLOCATES = re.compile(r"exchange_malloc|__rust_alloc|with_capacity|::push|::insert|::reserve|::from$|to_owned|to_string|format|::clone|extend|collect|from_iter|into_boxed|repeat|::new_uninit|Box::<.*>::new|Rc::<.*>::new|Arc::<.*>::new")


def owner(prog, k):
    b = prog.bodies.get(k)
    if b is None or b["crate"] != "nominals":
        return False
    return "nominalstring.rs" in b.get("span", "") or bool(OWNER.search(k))


def callees(b):
    for bl in b.get("blocks", ()):
        if not bl.get("cleanup"):
            t = bl["t"]
            if t and t[0] == "call" and isinstance(t[1], dict):
                yield t[1]


def operations(prog, entries):
    """names of the string operations that are called from the entry points"""
    seen, out = set(), set()
    stack = [prog.entries[e] for e in entries if e in prog.entries]
    while stack:
        k = stack.pop()
        if k in seen:
            continue
        seen.add(k)
        b = prog.bodies.get(k)
        if b is None or b.get("nobody"):
            continue
        if owner(prog, k):
            for n, r in OPS.items():
                if r.search(k):
                    out.add(n)
            continue
        for c in callees(b):
            if c.get("key"):
                stack.append(c["key"])
    return out


def hebrew():
    return "".join(c for c, _ in TB.HEBREW) + TB.GERESH + TB.GERSHAYIM


def ethiopic():
    return "".join(c for c in TB.ETHIOPIC_ONES + TB.ETHIOPIC_TENS if c) + TB.ETHIOPIC_100 + TB.ETHIOPIC_10000


def chinese():
    return "".join(TB.CHINESE_CHARS.values()) + "".join(TB.CHINESE_LARGE.values())


# family: (entry points of an integer type, characters or None for any, symbols or None for any)
FAMILIES = {
    "digits": (["e_collno", "e_collfb", "e_set3t", "e_set3f", "sys::Decimal::e_sys", "sys::LetterLower::e_sys", "sys::CjkHeavenlyStem::e_sys"], None, None),
    "decimal": (["e_into_decimal"], "0123456789", list("0123456789")),
    "additive": (["e_add3"], None, None),
    "values": (["sys::%s::e_sys" % s for s in TB.ADDITIVE], None, sorted({x for v in TB.ADDITIVE.values() for x, _ in v if x})),
    "hebrew": (["sys::Hebrew::e_sys"], hebrew(), [TB.HEBREW_15, TB.HEBREW_16] + list(hebrew())),
    "ethiopic": (["sys::Ethiopic::e_sys"], ethiopic(), list(ethiopic())),
    "chinese": (["chinese::SimplifiedChineseInformal::e_ordinary_short", "chinese::TraditionalChineseFormal::e_financial_myriad"], chinese(), 3),
    "enumerated": (["e_enum3t", "e_enum3f"], None, None),
}

# the longest text of a family, in bytes, where the largest integer bounds it
LONGEST = {"decimal": 39}


def classes(chars):
    """[(low, high)] of each length of encoding"""
    if chars is None:
        return [(0, 0x10FFFF)]
    out = []
    for lo, hi in ((0, 0x7F), (0x80, 0x7FF), (0x800, 0xFFFF), (0x10000, 0x10FFFF)):
        cs = [ord(c) for c in chars if lo <= ord(c) <= hi]
        if cs:
            out.append((min(cs), max(cs)))
    return out


def between(x, lo, hi):
    F = XFacts()
    F.add_ge(sub(x, lo))
    F.add_ge(sub(hi, x))
    return F


class Family:
    def __init__(self, prog, var, name):
        self.prog, self.var, self.name = prog, var, name
        es, self.chars, self.syms = FAMILIES[name]
        self.ops = operations(prog, ["%s::%s" % (t, e) for t in TB.BITS for e in es])
        self.m = Machine(prog, var)
        self.alloc = []  # calls of allocating functions for texts that fit

    def lens(self):
        """lengths of the strings that are pushed; None stands for longer ones"""
        if self.syms is None:
            return list(range(0, CAP + 3)) + [None]
        if isinstance(self.syms, int):
            return list(range(self.syms, CAP + 3, self.syms)) + [None]
        return sorted({len(s.encode()) for s in self.syms})

    def attempt(self, fn, F):
        """runs fn(F), which interprets; (new values, bad, undecided)"""
        r = self.m.res
        nb, nu, ok = len(r.bad), len(r.und), r.ok
        out = fn(F)
        bad, und = r.bad[nb:], r.und[nu:]
        del r.bad[nb:], r.und[nu:]
        r.ok = ok
        return out or [], bad, und

    def op(self, fn, F, exact):
        """exact: the facts of the single texts of the family, tried where the general case fails"""
        out, bad, und = self.attempt(fn, F)
        if (bad or und) and exact is not None:
            bad, und = [], []
            for G in exact():
                o, b, u = self.attempt(fn, G)
                bad += b[:1]
                und += u[:1]
                if len(bad) > 2:
                    break
        self.m.res.bad += bad
        self.m.res.und += und
        if not bad and not und:
            self.m.res.ok += 1
        return out

    def char_exact(self, lo, hi):
        if self.chars is None:
            return None
        cs = sorted({ord(c) for c in self.chars if lo <= ord(c) <= hi})
        return lambda: [between(CH, c, c) for c in cs]

    def str_exact(self, L):
        if not isinstance(self.syms, list) or L is None:
            return None
        xs = [s.encode() for s in self.syms if len(s.encode()) == L]

        def facts():
            for x in xs:
                F = XFacts()
                for i, b in enumerate(x):
                    F.add_ge(sub(B("x", i), b))
                    F.add_ge(sub(b, B("x", i)))
                yield F

        return facts

    def start(self):
        m = self.m
        news = []
        for n in ("new", "new_reverse", "default"):
            if n in self.ops:
                def mk(F, n=n):
                    eng, rets = run(self.prog, "ns::e_" + n, lambda eng, st, body: [], self.var)
                    take(m, "ns::e_" + n, eng, rets, lambda D: ())
                    self.watch("ns::e_" + n, eng)

                self.op(mk, None, None)
        grows = bool(m.states)  # otherwise texts are begun with their first character
        hold = dict(m.states), list(m.todo)
        if "from_char" in self.ops:
            for lo, hi in classes(self.chars):
                def mk(F):
                    eng, rets = run(self.prog, "ns::e_from_char", lambda eng, st, body: [CH], self.var, F)
                    take(m, "ns::e_from_char", eng, rets, lambda D: char_bytes(D, CH)[1])
                    self.watch("ns::e_from_char", eng)

                self.op(mk, between(CH, lo, hi), self.char_exact(lo, hi))
        if "from_str" in self.ops:
            for L in self.lens():
                if L is None or L > CAP:
                    continue
                def mk(F, L=L):
                    eng, rets = run(self.prog, "ns::e_from_str", lambda eng, st, body: [str_arg(eng, st, L)], self.var, F)
                    take2(m, "ns::e_from_str", eng, rets, tuple(B("x", i) for i in range(L)), True, "string of %d bytes" % L)
                    self.watch("ns::e_from_str", eng)

                self.op(mk, None, self.str_exact(L))
        if grows:
            m.states, m.todo = hold

    def watch(self, op, eng, lay=""):
        for r in sorted(eng.res.alloc):
            if ALLOCATES.search(r):
                self.alloc.append((op, lay, "%s is called for a text that fits inline" % r, ""))

    def longest(self, n):
        x = LONGEST.get(self.name)
        return x is not None and (n is None or n >= x)

    def pushes(self, k):
        m = self.m
        c, n = m.states[k]
        if self.longest(n):
            return []
        old = layout_content(c, n)
        out = []
        for name, front in (("push", False), ("push_front", True)):
            if name in self.ops:
                for lo, hi in classes(self.chars):
                    want = push_want(m, old, n, front, "char")
                    big = 1 if hi < 0x80 else 2 if hi < 0x800 else 3 if hi < 0x10000 else 4

                    def mk(F):
                        return self.call("ns::e_" + name, c, lambda eng, st: [CH], want, F, show(n, k), n is not None and n + big <= CAP)

                    out += self.op(mk, between(CH, lo, hi), self.char_exact(lo, hi))
        return out

    def call(self, op, c, extra, want, F, lay, fits):
        m = self.m
        seen = []

        def ex(eng, st):
            seen.append(eng)
            return extra(eng, st)

        out = m.call(op, op, c, ex, want, F=F, lay=lay)
        if fits:
            for e in seen:
                self.watch(op, e, lay)
        return out

    def strings(self, k, lens):
        m = self.m
        if "push_str" not in self.ops:
            return []
        c, n = m.states[k]
        if self.longest(n):
            return []
        old = layout_content(c, n)
        out = []
        for L in lens:
            if L is None:
                def mk(F):
                    F = XFacts()
                    F.add_ge(sub(N.sym("len(x)", 0, (1 << 63) - 1), CAP + 1))
                    return self.call("ns::e_push_str", c, lambda eng, st: [Str((("o", "x"),))], push_want(m, old, n, False, (("o", "x"),), None), F, "%s, longer string" % show(n, k), False)

                out += self.op(mk, None, None)
                continue
            if n is None and L > 8:
                continue
            bs = tuple(B("x", i) for i in range(L))

            def mk(F):
                return self.call("ns::e_push_str", c, lambda eng, st: [str_arg(eng, st, L)], push_want(m, old, n, False, bs, L), F, "%s, string of %d bytes" % (show(n, k), L), n is not None and n + L <= CAP)

            out += self.op(mk, None, self.str_exact(L))
        return out


def contract(prog, var, name, part, parts):
    f = Family(prog, var, name)
    m = f.m
    lens = f.lens()
    try:
        f.start()
        few = [x for x in lens if x is not None][:6] + lens[-1:]
        done = set()
        # the layouts: from the characters and the shortest strings
        while True:
            todo = [k for k in m.states if k not in done]
            if not todo:
                break
            for k in todo:
                done.add(k)
                for v in f.pushes(k) + f.strings(k, few):
                    m.note(v, "a push")
        base = sorted(m.states)
        rest = [x for x in lens if x not in few]
        if part != 0:
            m.res.bad, m.res.ok = [], 0
            f.alloc = []
        if rest:
            for k in base[part::parts]:
                for v in f.strings(k, rest):
                    m.note(v, "a push")
    except (Undecided, Mismatch) as e:
        m.res.und.append(("analysis", "", str(getattr(e, "msg", e)), ""))
    seen, bad = set(), []
    for b in m.res.bad + f.alloc:
        if b[0] + b[2] not in seen:
            seen.add(b[0] + b[2])
            bad.append(list(b))
    return {"variant": var, "family": name, "bad": bad[:60], "und": [list(u) for u in m.res.und[:20]], "ok": m.res.ok, "steps": m.res.steps, "functions": sorted(m.res.functions), "layouts": len(m.states), "ops": sorted(f.ops)}


# the families that a property is about, and what it says of them
ALL = ("digits", "decimal", "additive", "hebrew", "ethiopic", "chinese", "enumerated")
TEXT = {"C04": ("decimal",), "C06": ("digits",), "C07": ("digits",), "C08": ("values",), "C09": ("hebrew",), "C10": ("ethiopic",), "C11": ("chinese",), "C12": ("digits", "additive"), "C14": ("enumerated",), "C15": ("digits",)}
OTHER = ("C01", "C02", "C03", "C05", "C23")
MEMORY = re.compile(r"outside of|out of its bounds|never written")


def kind(msg):
    if msg.startswith("panics: "):
        return "panic"
    if msg == "never returns":
        return "loop"
    if "is called for a text that fits" in msg or "although it fits" in msg and "inline" in msg:
        return "heap"
    if MEMORY.search(msg) or "kept inline" in msg or "does not fit" in msg and "inline" in msg:
        return "none"
    if "fails although" in msg or "reported as done" in msg:
        return "error"
    return "text"


def judge(pid, rs):
    """[(family, variant, op, layout, message, where)] that break the property"""
    out = []
    with_alloc = {(r["family"], b[0], b[1], b[2]) for r in rs if r["variant"] == "alloc" for b in r["bad"]}
    for r in rs:
        for op, lay, msg, w in r["bad"]:
            k = kind(msg)
            if pid == "C01":
                hit = k == "panic"
            elif pid == "C02":
                hit = k == "loop"
            elif pid == "C03":
                hit = k == "error" and r["variant"] == "alloc"
            elif pid == "C05":
                hit = r["variant"] == "noalloc" and k in ("error", "text", "panic", "loop") and (r["family"], op, lay, msg) not in with_alloc
            elif pid == "C23":
                hit = k == "heap" and r["variant"] == "alloc"
            else:
                hit = k in ("text", "error", "panic", "loop")
            if hit:
                out.append((r["family"], r["variant"], op, lay, msg, w))
    return out


def families(pid):
    return ALL if pid in OTHER else TEXT.get(pid, ())


def parts(prog, name):
    return 3 if FAMILIES[name][2] is None or isinstance(FAMILIES[name][2], int) else 1
