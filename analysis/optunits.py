"""The options of the Chinese systems: every sequence of builder calls, as a finite automaton over the
concrete option values (found as a fixpoint), against the automaton of the documentation."""
import units as U
from engine import Engine, Mismatch, Panic, Undecided, XFacts
from models import Models
from strunits import run

SCALES = ("myriad", "short", "mid", "long")


def step(s, op):
    u, k = s
    return ("financial", k) if op == "financial" else (u, op)


def value_of(prog, entry, arg, var):
    eng, rets = run(prog, entry, lambda eng, st, body: [] if arg is None else [arg], var)
    r = eng.res
    for m, w, s in r.panics[:1] + r.mismatches[:1]:
        raise Mismatch("%s panics: %s" % (entry, m))
    if r.undecided or len(rets) != 1:
        raise Undecided("%s: %s" % (entry, r.undecided[:1] and r.undecided[0][0]))
    return rets[0][1], r


def explore(prog, var, script, formal):
    """(violations, undecided, stats, [(spec state, value) to decide by the text they write])"""
    sysn = script + "Chinese" + formal
    pre = "options::%s::e_" % sysn
    bad, und, todo, extra = [], [], [], []
    fns = set()
    canon = {}

    def go(op, arg):
        v, r = value_of(prog, pre + op, arg, var)
        fns.update(f for f in r.functions if prog.bodies[f]["crate"] == "nominals")
        return v

    steps = 0
    d = go("default", None)
    for u in ("ordinary", "financial"):
        for k in SCALES:
            v = d
            if u == "financial":
                v = go("financial", v)
            if k != "myriad":
                v = go(k, v)
            canon[(u, k)] = v
    seen = set()
    todo = [(("ordinary", "myriad"), d, ())]
    while todo:
        s, v, path = todo.pop()
        if (s, repr(v)) in seen:
            continue
        seen.add((s, repr(v)))
        if len(seen) > 400:
            und.append((sysn, var, "too many option values"))
            break
        if v != canon[s]:
            other = [t for t, w in canon.items() if w == v]
            if other:
                bad.append((sysn, "after %s the options are those of %s/%s where %s/%s is expected" % (".".join(("default",) + path), other[0][0], other[0][1], s[0], s[1])))
                continue
            extra.append((s, v, path))
        for op in ("financial", "short", "mid", "long"):
            steps += 1
            todo.append((step(s, op), go(op, v), path + (op,)))
    for a in canon:
        for b in canon:
            if a < b and canon[a] == canon[b]:
                bad.append((sysn, "the options %s/%s and %s/%s are the same value" % (a + b)))
    return bad, und, {"values": len(seen), "steps": steps, "functions": fns}, extra, canon


def writes(mod, job, t="u32"):
    """decides which options a value stands for by the numerals it makes the system write"""
    script, formal, s, v, path = job
    prog = mod.PROGS["alloc"]
    key = "%s::chinese::%sChinese%s::e_any" % (t, script, formal)
    fns = []

    def one(o, exact=False):
        mk = lambda eng: U.chinese_unit(t, script, formal, o[0], o[1], value=v)
        r = mod.analyse(("alloc", key, key, mk, "tok"), exact=exact, stop=exact, limit=200)
        fns.extend(f for f in r["functions"] if f not in fns)
        return r

    r = one(s)
    if not r["mismatches"] and not r["panics"]:
        u = r["undecided"]
        return {"bad": None, "und": u[0][0] if u else None, "functions": fns}
    x = one(s, True)
    if not x["mismatches"] and not x["panics"]:
        return {"bad": None, "und": "not confirmed: " + (r["mismatches"] + r["panics"])[0][0], "functions": fns}
    for o in [(a, b) for a in ("ordinary", "financial") for b in SCALES]:
        if o != s:
            y = one(o)
            if not y["mismatches"] and not y["panics"] and not y["undecided"]:
                return {"bad": "%s/%s" % o, "und": None, "functions": fns}
    return {"bad": None, "und": "the numerals are those of no option", "functions": fns}
