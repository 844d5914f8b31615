"""Which units decide which property."""
import json, os, re, time
import num as N
import tables as TB
import units as U
import fnunits as FU
from engine import Program

W = {"u8": 0.15, "u16": 0.3, "u32": 1.7, "u64": 12, "usize": 12, "u128": 90}


def weight(uid, var):
    if "::chinese::" in uid:
        w = W[uid.split("::")[0]]
        if uid.endswith("_short"):
            w = min(w, 5)
        elif uid.endswith("_myriad"):
            w *= 2
        return w
    if "::sys::" in uid:
        n = uid.split("::")[2]
        return 2.0 if n in TB.ADDITIVE else 0.4
    if re.search(r"::e_(restrict|chain|collfb|onebased)", uid):
        return 1.5
    return 0.02 if not re.match(r"u\d+::e_|usize::e_", uid) else 0.4


def load(tmp, variants, mod):
    for v in variants:
        mod.PROGS[v] = Program(os.path.join(tmp, "mono_%s.json" % v))


def jobs_for(mod, variants, select):
    """select(id, group, width or None, variant) -> bool"""
    out = []
    for var in variants:
        prog = mod.PROGS[var]
        for t in TB.BITS:
            for key, g, mk in U.build_units(prog, t):
                entry = key.split("#")[0]
                if entry in prog.entries and select(key, g, t, var):
                    out.append((var, key, entry, mk, "tok"))
        for uid, key, g, mk in FU.build_fn_units(prog, var == "alloc"):
            t = uid.split("::")[0]
            t = t if t in TB.BITS else None
            if key in prog.entries and select(uid, g, t, var):
                out.append((var, uid, key, mk, "tok"))
    return out


ERRORS = re.compile(r"error|returns a string where|OutOfMemory|carry the number|push failed")


class Units:
    """a property decided by a set of units of the abstract interpreter"""

    def __init__(self, variants, quick, thorough=None, kinds=("mismatch", "panic"), msg=None, what="", note="", budget=(600, 850), floor=1):
        self.variants, self.quick, self.thorough = variants, quick, thorough or quick
        self.kinds, self.msg, self.what = kinds, msg, what
        self.level = "proof"
        self.note = note
        self.budget = budget
        self.floor = floor
        self.assumptions = ASSUME

    def run(self, pid, tier, tmp, ev, mod):
        sel = self.thorough if tier == "thorough" else self.quick
        load(tmp, self.variants, mod)
        jobs = jobs_for(mod, self.variants, sel)
        n = min(8, os.cpu_count() or 4)
        opts = {"limit": 400 if tier == "quick" else 5400, "confirm": 150, "budget": self.budget[0] if tier == "quick" else 20000, "kinds": self.kinds}
        rs = mod.pool(jobs, opts, n)
        viol, lines = judge(pid, self, tier, rs, ev)
        v2, l2 = string_deps(pid, tmp, ev, mod)
        return viol + v2, lines + l2


def string_deps(pid, tmp, ev, mod):
    """what the property needs of the string type, from the string's own code"""
    import strdeps as SD

    fams = SD.families(pid)
    if not fams:
        return [], []
    load(tmp, BOTH, mod)
    jobs = [(v, f, i, SD.parts(None, f)) for v in BOTH for f in fams for i in range(SD.parts(None, f))]
    lost = lambda j: {"variant": j[0], "family": j[1], "bad": [], "und": [["", "", "not finished", ""]], "ok": 0, "steps": 0, "functions": [], "layouts": 0, "ops": []}
    rs = mod.parallel(jobs, lambda j: SD.contract(mod.PROGS[j[0]], j[0], j[1], j[2], j[3]), lambda j: 6.0, 8, 200, lost)
    bad = SD.judge(pid, rs)
    und = [(r["family"], r["variant"], u[0], u[1], u[2]) for r in rs for u in r["und"]]
    ok = sum(r["ok"] for r in rs)
    c = ev["coverage"]
    c["string_operations"] = {"families": {r["family"]: r["ops"] for r in rs}, "layouts": max(r["layouts"] for r in rs), "discharged": ok, "blocks_interpreted": sum(r["steps"] for r in rs), "undecided": [list(u) for u in und[:20]], "rule": "each operation of the string type that the systems call, on each layout that it reaches, does what the model used in the rest of the analysis says"}
    if "obligations" in c:
        c["obligations"] += ok + len(bad) + len(und)
        c["discharged"] += ok
    lines = ["UNDECIDED: property=%s %d operations of the string type (see evidence)" % (pid, len(und))] if und else []
    return [{"unit": op, "variant": v, "kind": "string", "what": "%s (%s; used by %s)" % (m, l, f), "where": w} for f, v, op, l, m, w in bad[:20]], lines


def judge(pid, self, tier, rs, ev):
    viol, lines = [], []
    und = []
    for r in rs:
        bad = []
        if "mismatch" in self.kinds:
            bad += [("mismatch", x) for x in r["mismatches"]]
        if "panic" in self.kinds:
            bad += [("panic", x) for x in r["panics"]]
        if self.msg is not None:
            bad = [b for b in bad if b[0] == "panic" or self.msg.search(b[1][0])]
        if "loop" in self.kinds:
            for m, w, f in [(x[0], x[1], x[2]) for x in r["mismatches"]]:
                if "recursion does not end" in m:
                    bad.append(("loop", (m, w, f)))
            for l in r["loops"]:
                bad.append(("loop", ("no measure decreases in the cycle of loop heads %s" % l, "", "")))
        if bad and r.get("confirmed"):
            c = r["confirmed"]
            for k, (m, w, f) in bad[:3]:
                viol.append({"unit": r["id"], "variant": r["variant"], "kind": k, "what": m, "where": w, "state": f, "confirmed": (c["mismatches"] + c["panics"])[:2]})
        elif bad:
            und.append((r["id"], r["variant"], "not confirmed: %s in %s" % (bad[0][1][0], bad[0][1][1])))
        for m, w in r["undecided"][:3]:
            und.append((r["id"], r["variant"], "%s in %s" % (m, w)))
        if not bad and not r["undecided"] and not r["returns"] and not r["mismatches"] and not r["panics"]:
            und.append((r["id"], r["variant"], "no path reaches the end"))
    udone = {(a, b) for a, b, _ in und}
    done = [r for r in rs if (r["id"], r["variant"]) not in udone]
    fns = set()
    for r in rs:
        fns.update(r["functions"])
    ret = {}
    for r in rs:
        for k, n in r["returns"].items():
            ret[k] = ret.get(k, 0) + n
    ev["coverage"] = {
        "obligations": len(rs),
        "discharged": len([r for r in done if not any(v.get("unit") == r["id"] and v.get("variant") == r["variant"] for v in viol)]),
        "checker_cmd": "cd /verif && ./check.sh %s %s" % (pid, tier),
        "trusted_base": TRUST,
        "rule": self.what,
        "entry_points": sorted("%s [%s]" % (r["id"], r["variant"]) for r in rs)[:400],
        "functions_analysed": sorted(fns)[:300],
        "blocks_interpreted": sum(r["steps"] for r in rs),
        "call_sites_visited": sum(r["calls"] for r in rs),
        "loop_head_states": sum(r["nodes"] for r in rs),
        "measures_found": sum(r["measures"] for r in rs),
        "tokens_compared": sum(r["tokens"] for r in rs),
        "abstract_returns": ret,
        "undecided": [list(x) for x in und[:60]],
        "analysis_cpu_s": round(sum(r.get("wall", 0) for r in rs), 1),
    }
    if und:
        lines.append("UNDECIDED: property=%s %d of %d obligations (see evidence)" % (pid, len(udone), len(rs)))
    return viol, lines


ASSUME = [
    "Values that user code supplies (digit collections, symbol sets) answer consistently from call to call.",
    "Lengths of user collections fit in usize; chained lengths do not overflow usize.",
    "Allocation does not fail when the alloc feature is on.",
    "Targets have a 64-bit usize.",
]
TRUST = [
    "rustc nightly's MIR of the crate as built from /repo (mir-opt-level 0, overflow checks on)",
    "analysis/engine.py and analysis/num.py: abstract interpreter and linear-inequality domain",
    "analysis/models.py: models of core and alloc functions that end in raw pointer code, and of NominalString's operations (C17 decides the latter from their own code)",
    "analysis/specs.py and analysis/tables.py: what each system has to write",
]

CJ = ("u8", "u16", "u32")
LETTERS = set(TB.POSITIONAL) | set(TB.ALPHABETIC)


def sysname(k):
    m = re.match(r"\w+::sys::(\w+)::", k)
    return m.group(1) if m else None


def chin(k, widths, deep=()):
    t = k.split("::")[0]
    return t in widths or any(x in k for x in deep)


U64C = tuple("u64::chinese::%s::e_ordinary_%s" % (s, x) for s in ("SimplifiedChineseInformal", "TraditionalChineseFormal") for x in ("short", "mid", "long", "myriad"))

U128C = tuple("u128::chinese::SimplifiedChineseInformal::e_ordinary_%s" % x for x in ("mid", "long"))


def every(k, g, t, var):
    if g == "chinese":
        if var == "noalloc":
            return t in ("u8", "u16") or t == "u64" and "::SimplifiedChineseInformal::e_ordinary" in k
        return t in ("u8", "u16", "u32") or k in U64C or k in U128C or (t == "u128" and k.endswith("e_ordinary_short"))
    if g in ("tables", "combine", "convert", "dyn", "sets") and t is None:
        return True
    if var == "noalloc":
        return t in ("u8", "u64", "u128") or g == "digits"
    return t in ("u8", "u16", "u32", "u64", "u128", "usize")


def every_deep(k, g, t, var):
    return not (g == "chinese" and t == "u128" and "myriad" in k)


def only(*groups, widths=None, pred=None):
    def f(k, g, t, var):
        return g in groups and (widths is None or t is None or t in widths) and (pred is None or pred(k))

    return f


BOTH = ("alloc", "noalloc")
PROPS = {}


def P(pid, *a, **k):
    PROPS[pid] = Units(*a, **k)


P("C01", BOTH, every, every_deep, kinds=("panic",), what="no abstract state at any entry point reaches a panic (overflow, index, unwrap, unreachable)")
P("C02", BOTH, every, every_deep, kinds=("loop",), what="every cycle of loop heads has a decreasing, bounded measure; recursion is bounded")
P("C03", BOTH, every, every_deep, msg=ERRORS, kinds=("mismatch",), what="each entry point returns an error exactly in the abstract states in which the system has no numeral, with the right kind and the number that was given")


def comment():
    pass


P("C08", BOTH, only("additive"))
P("C09", BOTH, only("hebrew"))
P("C10", BOTH, only("ethiopic"))


def c11q(k, g, t, var):
    if g != "chinese":
        return False
    if var == "noalloc":
        return t in ("u8", "u16") or (t == "u64" and "SimplifiedChineseInformal::e_ordinary" in k)
    return t in ("u8", "u16", "u32", "u64") or (t == "u128" and k.endswith("_short")) or k in ("u128::chinese::SimplifiedChineseFormal::e_ordinary_mid", "u128::chinese::SimplifiedChineseFormal::e_ordinary_long")


P("C11", BOTH, c11q, lambda k, g, t, var: g == "chinese")
P("C12", BOTH, only("sets"))
P("C14", BOTH, only("enumerated"))
P("C15", BOTH, only("combine"))
P("C16", ("alloc",), only("tables"))
P("C21", BOTH, only("dyn"))


# ---------------------------------------------------------------- strings
MEMORY = re.compile(r"outside of|out of its bounds|never written")


class Strings:
    """the layouts of NominalString, as a fixpoint over its operations"""

    def __init__(self, what, memory=False, ops=None):
        self.what, self.memory, self.ops = what, memory, ops
        self.level = "proof"
        self.assumptions = [ASSUME[2], ASSUME[3]]

    def run(self, pid, tier, tmp, ev, mod):
        load(tmp, BOTH, mod)
        jobs = [(v, part) for v in BOTH for part in range(4)]
        lost = lambda j: {"lost": True, "variant": j[0], "bad": [], "und": [["", "", "not finished", ""]], "ok": 0, "steps": 0, "functions": [], "layouts": 0}
        rs = mod.parallel(jobs, lambda j: strings(mod.PROGS[j[0]], j[0], j[1], self.ops), lambda j: 6.0, 8, 700, lost)
        viol, lines, und = [], [], []
        for r in rs:
            for op, lay, msg, w in r["bad"]:
                if self.ops and not any(x in op for x in self.ops):
                    continue
                if bool(MEMORY.search(msg)) == self.memory or (not self.memory and "made from" in msg):
                    viol.append({"unit": op, "variant": r["variant"], "kind": "string", "what": "%s (%s)" % (msg, lay), "where": w})
            und += [(u[0], r["variant"], u[1], u[2]) for u in r["und"]]
        ok = sum(r["ok"] for r in rs)
        fns = set()
        for r in rs:
            fns.update(r["functions"])
        ev["coverage"] = {
            "obligations": ok + len(und) + len({(v["unit"], v["what"]) for v in viol}),
            "discharged": ok,
            "checker_cmd": "cd /verif && ./check.sh %s %s" % (pid, tier),
            "trusted_base": TRUST[:3],
            "rule": self.what,
            "layouts": {v: max(r["layouts"] for r in rs if r["variant"] == v) for v in BOTH},
            "operations_interpreted": ok,
            "blocks_interpreted": sum(r["steps"] for r in rs),
            "functions_analysed": sorted(fns),
            "undecided": [list(u) for u in und[:40]],
        }
        if und:
            lines.append("UNDECIDED: property=%s %d string operations (see evidence)" % (pid, len(und)))
        return viol, lines


def strings(prog, var, part, ops):
    import strunits as SU

    m = None
    try:
        m = SU.discover(prog, var)
        if part != 0:
            m.res = SU.Result()
        else:
            SU.const_ops(m)
            SU.from_str_ops(m)
        done = set()
        base = sorted(m.states)
        mine = set(base[part::4])
        while True:
            todo = [k for k in m.states if k not in done and (k in mine or k not in base)]
            if not todo:
                break
            for k in todo:
                done.add(k)
                if ops and "cmp::" in ops:
                    if k in mine:
                        SU.alias_ops(m, k)
                    continue
                for v in SU.read_ops(m, k) + SU.push_str_ops(m, k):
                    m.note(v, "a push or a copy")
            SU.drain(m)
    except (SU.Undecided, SU.Mismatch) as e:
        r = m.res if m else SU.Result()
        r.und.append(("analysis", "", str(getattr(e, "msg", e)), ""))
        if m is None:
            return {"variant": var, "bad": [], "und": [list(u) for u in r.und], "ok": 0, "steps": 0, "functions": [], "layouts": 0}
    seen, bad = set(), []
    for b in m.res.bad:
        if b[0] + b[2] not in seen:
            seen.add(b[0] + b[2])
            bad.append(list(b))
    return {"variant": var, "bad": bad[:40], "und": [list(u) for u in m.res.und[:40]], "ok": m.res.ok, "steps": m.res.steps, "functions": sorted(m.res.functions), "layouts": len(m.states)}


class Options:
    """the option automata of the Chinese systems"""

    def __init__(self, what):
        self.what = what
        self.level = "proof"
        self.assumptions = []

    def run(self, pid, tier, tmp, ev, mod):
        import optunits as O

        load(tmp, BOTH, mod)
        viol, lines, und, st, todo, fns = [], [], [], {"values": 0, "steps": 0}, [], set()
        for var in BOTH:
            prog = mod.PROGS[var]
            for script in ("Simplified", "Traditional"):
                for formal in ("Formal", "Informal"):
                    try:
                        bad, u, x, extra, canon = O.explore(prog, var, script, formal)
                    except (O.Mismatch, O.Undecided) as e:
                        m = str(getattr(e, "msg", e))
                        if isinstance(e, O.Mismatch):
                            viol.append({"unit": script + formal, "variant": var, "kind": "options", "what": m})
                        else:
                            und.append((script + formal, var, m))
                        continue
                    viol += [{"unit": a, "variant": var, "kind": "options", "what": b} for a, b in bad]
                    und += u
                    st["values"] += x["values"]
                    st["steps"] += x["steps"]
                    fns |= x["functions"]
                    if var == "alloc":
                        todo += [(script, formal, s, v, p) for s, v, p in extra]
                        todo += [(script, formal, s, v, ("default", s[0], s[1])) for s, v in canon.items()]
        lost = lambda j: {"und": "not finished", "bad": None, "functions": []}
        rs = mod.parallel(todo, lambda j: O.writes(mod, j), lambda j: 2.0, 8, 600, lost)
        for j, r in zip(todo, rs):
            fns.update(r["functions"])
            if r["bad"]:
                viol.append({"unit": "%sChinese%s" % j[:2], "variant": "alloc", "kind": "options", "what": "after %s the numerals are those of %s where %s/%s is expected" % (".".join(j[4]), r["bad"], j[2][0], j[2][1])})
            elif r["und"]:
                und.append(("%sChinese%s" % j[:2], "alloc", "%s: %s" % (".".join(j[4]), r["und"])))
        n = st["steps"] + len(todo)
        ev["coverage"] = {
            "obligations": n,
            "discharged": n - len(viol) - len(und),
            "checker_cmd": "cd /verif && ./check.sh %s %s" % (pid, tier),
            "trusted_base": TRUST,
            "rule": self.what,
            "option_values": st["values"],
            "builder_calls_interpreted": st["steps"],
            "values_decided_by_what_they_write": len(todo),
            "functions_analysed": sorted(fns)[:200],
            "undecided": [list(u) for u in und],
        }
        if und:
            lines.append("UNDECIDED: property=%s %d (see evidence)" % (pid, len(und)))
        return viol, lines


# ---------------------------------------------------------------- facts about the whole crate
ADDRESS = re.compile(r"^core::ptr::.*::(addr|expose_provenance|align_offset|is_aligned\w*)$")


def address_decides(b):
    """places in which a body compares an address with something that is not one, or switches on a part of one.
    (Differences and comparisons of two addresses do not depend on where things lie.)"""
    taint, cmp_ = set(), set()

    def loc(o):
        return o[1][0] if o[0] in ("m", "c") and (not o[1][1] or o[1][1][0][0] == "f") else None

    def of(o):
        return loc(o) in taint

    changed, hits = True, {}
    while changed:
        changed = False
        for bl in b["blocks"]:
            for st in bl["s"]:
                if st[0] != "=" or st[1][1]:
                    continue
                d, r = st[1][0], st[2]
                t = c = False
                if r[0] == "cast" and r[1] == "PointerExposeProvenance":
                    t = True
                elif r[0] == "cast":
                    t, c = r[1] == "IntToInt" and of(r[2]), r[1] == "IntToInt" and loc(r[2]) in cmp_
                elif r[0] == "use":
                    t, c = of(r[1]), loc(r[1]) in cmp_
                elif r[0] == "un":
                    t, c = of(r[2]), loc(r[2]) in cmp_
                elif r[0] == "bin":
                    n = of(r[2]) + of(r[3])
                    if r[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
                        c = n == 1
                    else:
                        t = n == 1 or n == 2 and not r[1].startswith("Sub")
                    c = c or loc(r[2]) in cmp_ or loc(r[3]) in cmp_
                if t and d not in taint:
                    taint.add(d)
                    changed = True
                if c and d not in cmp_:
                    cmp_.add(d)
                    changed = True
            k = bl["t"]
            if k[0] == "call" and isinstance(k[1], dict) and ADDRESS.search(k[1].get("path") or "") and not k[3][1]:
                w = cmp_ if "is_aligned" in k[1]["path"] else taint
                if k[3][0] not in w:
                    w.add(k[3][0])
                    changed = True
            if k[0] == "switch" and (of(k[1]) or loc(k[1]) in cmp_):
                hits[bl["l"]] = 1
    return sorted(hits)


class Pure:
    level = "other"
    assumptions = ["User-written collections and systems are themselves free of side effects and thread-safe."]

    def __init__(self, what):
        self.what = what

    def run(self, pid, tier, tmp, ev, mod):
        viol, n, seen = [], 0, {}
        for var in BOTH:
            d = json.load(open(os.path.join(tmp, "facts_%s.json" % var)))

            def bad(unit, what, at):
                viol.append({"unit": unit, "variant": var, "kind": "effect", "what": what, "where": at})

            for s in d["statics"]:
                n += 1
                if s["mut"]:
                    bad(s["path"], "a mutable static", s["at"])
                elif not s["frozen"]:
                    bad(s["path"], "a static with interior mutability", s["at"])
                if s["thread_local"]:
                    bad(s["path"], "a thread-local static", s["at"])
                if s["foreign"]:
                    bad(s["path"], "a foreign static", s["at"])
            for a in d["adts"]:
                n += 1
                if not a["frozen"]:
                    bad(a["path"], "a type with interior mutability", a["at"])
                if a["public"]:
                    for t in ("send", "sync"):
                        if a[t] is False:
                            bad(a["path"], "a public type that is not %s" % t.capitalize(), a["at"])
            for b in d["bodies"]:
                n += 1
                for w in b["asm"]:
                    bad(b["path"], "inline assembly", w)
                for path, rpath, crate, foreign, w in b["calls"]:
                    n += 1
                    if foreign:
                        bad(b["path"], "a call of the foreign function %s" % path, w)
                    elif crate not in ("core", "alloc", "nominals"):
                        bad(b["path"], "a call of %s, outside of core and alloc" % rpath, w)
            m, where = json.load(open(os.path.join(tmp, "mono_%s.json" % var))), set()
            own = [b for b in m["bodies"] if b["crate"] == "nominals"]
            for b in own:
                n += 1
                for w in address_decides(b):
                    if (b["path"], w) not in where:
                        where.add((b["path"], w))
                        bad(b["path"], "what is done depends on the address of a value", w)
            for t, w in d["unsafe_impls"]:
                if "Send" in t or "Sync" in t:
                    bad(t, "an unsafe impl of a marker trait", w)
            seen[var] = {"statics": len(d["statics"]), "types": len(d["adts"]), "bodies": len(d["bodies"]), "calls": sum(len(b["calls"]) for b in d["bodies"]), "bodies_with_types": len(own)}
        ev["coverage"] = {"explanation": self.what, "analysed": seen, "facts_checked": n}
        return floors(pid, seen, viol)


def floors(pid, seen, viol):
    lines = []
    for v in seen:
        if seen[v]["bodies"] < 300:
            lines.append("UNDECIDED: property=%s only %d functions were seen" % (pid, seen[v]["bodies"]))
    return viol, lines


ALLOCATES = re.compile(r"(^|::)(exchange_malloc|__rust_alloc\w*|__rust_realloc|box_new\w*)$|^alloc::alloc::|^alloc::raw_vec::|^alloc::boxed::Box::<.*>::new|^alloc::(vec|string|rc|sync|collections|boxed|borrow|fmt|str|slice)::")
# conversions that allocate for inline strings too
CONVERSION = re.compile(r"From<nominals::NominalString> for alloc::string::String>::from|ToString>::to_string|alloc::borrow::ToOwned")
NOT_ALLOCATING = re.compile(r"as_ref|::deref|drop|dealloc|as_str|::len$|is_empty|as_bytes")


class NoAlloc:
    """crates that are linked without alloc; allocation sites with it"""

    level = "other"
    assumptions = ["User-written collections, systems and symbols do not allocate themselves."]

    def __init__(self, what):
        self.what = what

    def run(self, pid, tier, tmp, ev, mod):
        import strdeps as SD

        viol, seen = [], {}
        for var, ok in (("noalloc", {"core", "compiler_builtins"}), ("alloc", {"core", "alloc", "compiler_builtins"})):
            d = json.load(open(os.path.join(tmp, "facts_%s.json" % var)))
            for c in d["crates"]:
                if c not in ok:
                    viol.append({"unit": c, "variant": var, "kind": "crate", "what": "the crate %s is linked %s the alloc feature" % (c, "with" if var == "alloc" else "without"), "where": "src/lib.rs"})
            seen[var] = {"crates": d["crates"], "bodies": len(d["bodies"]), "calls": sum(len(b["calls"]) for b in d["bodies"])}
        load(tmp, ("alloc",), mod)
        prog = mod.PROGS["alloc"]
        sites, visited, entries = [], set(), 0
        for key, entry in sorted(prog.entries.items()):
            if not re.match(r"(u\d+|usize)::", key) or "::dynamic::" in key:
                continue
            entries += 1
            stack = [(entry, ())]
            while stack:
                k, path = stack.pop()
                if k in visited:
                    continue
                visited.add(k)
                b = prog.bodies.get(k)
                if b is None or SD.owner(prog, k) or b.get("nobody"):
                    continue
                for c, where in callees(b):
                    rp = c.get("rpath", "")
                    if CONVERSION.search(c.get("key") or rp):
                        viol.append({"unit": k, "variant": "alloc", "kind": "allocation", "what": "%s allocates even for a text that fits inline" % rp, "where": "%s <- %s" % (k, " <- ".join(path[-4:]))})
                    elif c.get("crate") == "alloc" and not NOT_ALLOCATING.search(rp):
                        viol.append({"unit": k, "variant": "alloc", "kind": "allocation", "what": "%s is called outside of the string type" % rp, "where": "%s <- %s" % (k, " <- ".join(path[-4:]))})
                    elif c.get("key") and len(path) < 60:
                        stack.append((c["key"], path + (k,)))
        ev["coverage"] = {"explanation": self.what, "analysed": seen, "entry_points": entries, "functions_reached": len(visited)}
        viol, lines = floors(pid, seen, viol)
        v2, l2 = string_deps(pid, tmp, ev, mod)
        return viol + v2, lines + l2


def callees(b):
    for bl in b.get("blocks", ()):
        if bl.get("cleanup"):
            continue
        t = bl["t"]
        if t and t[0] == "call" and isinstance(t[1], dict):
            yield t[1], bl.get("l")


class Memory(Strings):
    """raw memory: the string type's layouts, and every other unit that reaches an unsafe operation"""

    def run(self, pid, tier, tmp, ev, mod):
        viol, lines = Strings.run(self, pid, tier, tmp, ev, mod)
        done = set(ev["coverage"]["functions_analysed"])
        jobs, sites, und = [], 0, []
        for var in BOTH:
            d = json.load(open(os.path.join(tmp, "facts_%s.json" % var)))
            prog = mod.PROGS[var]
            want = {}
            for b in d["bodies"]:
                sites += len(b["unsafe"])
                if b["unsafe"] and not any(tail(f) == tail(b["path"]) for f in done):
                    want[b["path"]] = b["unsafe"][0]
            if not want:
                continue
            cand = jobs_for(mod, (var,), lambda k, g, t, v: t in (None, "u8", "u64") and not (g == "chinese" and t == "u64"))
            reach = {}
            for p, (what, w) in want.items():
                hit = [j for j in cand if any(tail(f) == tail(p) for f in reachable(prog, j[2], reach))]
                if not hit:
                    und.append((p, var, "%s at %s is reached from no analysed entry point" % (what, w)))
                jobs += [j for j in hit if j not in jobs]
        if jobs:
            rs = mod.pool(jobs, {"limit": 300, "confirm": 120, "budget": 600}, 8)
            for r in rs:
                bad = [x for x in r["mismatches"] if MEMORY.search(x[0])]
                if bad and r["confirmed"]:
                    viol += [{"unit": r["id"], "variant": r["variant"], "kind": "memory", "what": m, "where": w} for m, w, f in bad[:3]]
                und += [(r["id"], r["variant"], "%s in %s" % tuple(x)) for x in r["undecided"][:1]]
        c = ev["coverage"]
        c["unsafe_operations"] = sites
        c["other_units_with_unsafe_code"] = len(jobs)
        c["undecided"] += [list(u) for u in und]
        c["obligations"] += len(jobs) + len(und)
        c["discharged"] += len(jobs)
        if und:
            lines.append("UNDECIDED: property=%s %d unsafe sites or units (see evidence)" % (pid, len(und)))
        return viol, lines


def tail(p):
    return "::".join(re.sub(r"<.*?>", "", p).split("::")[-2:])


def reachable(prog, key, memo):
    if key in memo:
        return memo[key]
    seen, stack = set(), [key]
    while stack:
        k = stack.pop()
        if k in seen:
            continue
        seen.add(k)
        b = prog.bodies.get(k)
        if b:
            stack += [c["key"] for c, _ in callees(b) if c.get("key")]
    memo[key] = seen
    return seen


class Compare(Units):
    """violations are the units that are wrong in one variant (or width) but not in the other"""

    def others(self, job, r, mod, limit):
        raise NotImplementedError

    def run(self, pid, tier, tmp, ev, mod):
        sel = self.thorough if tier == "thorough" else self.quick
        load(tmp, self.load, mod)
        jobs = jobs_for(mod, self.variants, sel)
        quick = tier == "quick"
        t0 = time.time()
        opts = {"limit": 300 if quick else 5400, "budget": 420 if quick else 20000, "all": True}
        rs = mod.pool(jobs, opts, 8)
        suspects = [(j, r) for j, r in zip(jobs, rs) if r["mismatches"] or r["panics"]]
        lost = lambda x: ["", "not finished"]
        left = max(60, 660 - (time.time() - t0)) if quick else 20000

        def decide(x):
            if mod.CONFIRMED[0] >= 3:
                return ["", "not analysed: violations were found before"]
            d = self.decide(mod, x[0], x[1])
            if d[0]:
                mod.CONFIRMED[0] += 1
            return d

        ds = mod.parallel(suspects, decide, lambda x: 5.0 + weight(x[0][1], x[0][0]), 8, left, lost)
        keep = {}
        for (j, r), (what, why) in zip(suspects, ds):
            keep[(r["id"], r["variant"])] = (what, why)
        for r in rs:
            k = (r["id"], r["variant"])
            if k in keep:
                what, why = keep[k]
                bad = r["mismatches"] + r["panics"]
                r["panics"] = []
                if what:
                    r["confirmed"] = {"mismatches": [[why, "", ""]], "panics": []}
                    r["mismatches"] = [["%s: %s" % (what, bad[0][0]), bad[0][1], bad[0][2]]]
                else:
                    r["mismatches"] = []
                    r["undecided"] = [[why or "wrong in the same way everywhere: " + bad[0][0], bad[0][1]]]
        viol, lines = judge(pid, self, tier, rs, ev)
        v2, l2 = string_deps(pid, tmp, ev, mod)
        return viol + v2, lines + l2


class WithoutAlloc(Compare):
    load = BOTH

    def decide(self, mod, job, r):
        x = mod.analyse(("alloc",) + tuple(job[1:]), limit=200)
        if not x["mismatches"] and not x["panics"] and not x["undecided"] and x["returns"]:
            y = mod.work(job, {"limit": 200, "confirm": 150, "count": False})
            if y["confirmed"]:
                c = y["confirmed"]
                return ["only without the alloc feature", "clean with it; " + (c["mismatches"] + c["panics"])[0][0]]
            return ["", "not confirmed"]
        return ["", ""]


class Widths(Compare):
    load = ("alloc",)
    order = ("u8", "u16", "u32", "u64", "usize", "u128")

    def decide(self, mod, job, r):
        """wrong for this type: is it right, for the same numbers, for another one?"""
        var, uid, entry, mk, mode = job
        t = uid.split("::")[0]
        reg = {}
        for j in jobs_for(mod, (var,), lambda k, g, tt, v: k.split("::", 1)[1] == uid.split("::", 1)[1]):
            reg[j[1].split("::")[0]] = j
        for o in self.order:
            if o == t or o not in reg:
                continue
            b = min(TB.BITS[o], TB.BITS[t])
            mine = self.bounded(mod, job, b)
            if not mine["mismatches"] and not mine["panics"]:
                continue
            x = self.bounded(mod, reg[o], b)
            if not x["mismatches"] and not x["panics"] and not x["undecided"] and x["returns"]:
                return ["for numbers below 2^%d that are written correctly as %s, as %s" % (b, o, t), "clean as %s" % o]
        return ["", ""]

    def bounded(self, mod, job, bits):
        var, uid, entry, mk, mode = job

        def mk2(eng):
            sp, args, F = mk(eng)
            F = F or XF()
            n = sp.n
            F.add_ge(N.sub((1 << bits) - 1, n))
            return sp, args, F

        x = mod.analyse((var, uid, entry, mk2, mode), limit=200)
        if x["mismatches"] or x["panics"]:
            if not mod.work((var, uid, entry, mk2, mode), {"limit": 120, "confirm": 90, "count": False})["confirmed"]:
                x["undecided"] = x["undecided"] or [["not confirmed", ""]]
                x["mismatches"] = x["panics"] = []
        return x


def XF():
    from engine import XFacts

    return XFacts()


def PC(cls, pid, *a, **k):
    PROPS[pid] = cls(*a, **k)


FX = set(TB.FIXED)
P("C04", BOTH, lambda k, g, t, var: g in ("render", "fallback") and (var == "alloc" or t == "u64") or "nominal_custom" in k, what="the text of the fallible operation, or the decimal digits of the number when it fails")


def noalloc_q(k, g, t, var):
    if g == "chinese":
        return t in ("u8", "u16", "u32", "u64") or t == "u128" and k.endswith(("_short", "Informal::e_ordinary_long"))
    if t is None or g in ("tables", "convert", "render", "dyn", "cmp", "coll_open", "coll_fixed"):
        return False
    return t in ("u8", "u64", "u128")


PC(WithoutAlloc, "C05", ("noalloc",), noalloc_q, lambda k, g, t, var: g == "chinese" and (t != "u128" or "myriad" not in k) or noalloc_q(k, g, t, var), what="without alloc every push may fail: the text is the same, or OutOfMemory with the number is returned exactly when a push failed")
P("C06", BOTH, lambda k, g, t, var: (g == "digits" and sysname(k) not in FX and "::e_coll" not in k) or g == "coll_open", what="the characters pushed are the digits of the positional expansion")
P("C07", BOTH, lambda k, g, t, var: (g == "digits" and sysname(k) in FX) or g == "coll_fixed" or k.endswith("e_nofallback"), what="fixed-length collections: single symbols inside of the range, the fallback's text beyond it, OutOfBounds without one")
PROPS["C13"] = Options("builder calls as an automaton over the concrete option values")
PROPS["C17"] = Strings("for every reachable layout, each operation leaves exactly the expected bytes; inline up to 62 bytes, on the heap beyond (or OutOfMemory without alloc)", ops=("e_push", "e_push_str", "e_push_front", "e_from_str", "e_from_char", "e_new", "e_default", "e_is_inline", "e_capacity", "e_deref_mut"))
PROPS["C18"] = Memory("every raw access of every operation stays inside of its buffer and reads only bytes that were written, for every reachable layout", memory=True)



class Compared(Units):
    """comparisons of unrelated strings, and of strings with parts of themselves"""

    def run(self, pid, tier, tmp, ev, mod):
        viol, lines = Units.run(self, pid, tier, tmp, ev, mod)
        c, e2 = ev["coverage"], {}
        v2, l2 = Strings("a string compared with a part of itself", ops=("cmp::",)).run(pid, tier, tmp, e2, mod)
        d = e2["coverage"]
        for k in ("obligations", "discharged", "blocks_interpreted"):
            c[k] = c.get(k, 0) + d[k]
        c["undecided"] = c.get("undecided", []) + d["undecided"]
        c["comparisons_with_own_parts"] = d["operations_interpreted"]
        c["layouts"] = d["layouts"]
        return viol + v2, lines + l2


PC(Compared, "C19", BOTH, only("cmp"), what="comparisons and Display are those of the content")
P("C29", BOTH, only("values"), what="equality, clones and defaults are by value")
PROPS["C20"] = Strings("clones and conversions have the content of the original", ops=("heap::", ))


class Docs:
    """the sample numerals of the documentation"""

    def __init__(self, what):
        self.what = what
        self.level = "proof"
        self.assumptions = [ASSUME[2], ASSUME[3]]

    def run(self, pid, tier, tmp, ev, mod):
        import docunits as D

        load(tmp, ("alloc",), mod)
        prog = mod.PROGS["alloc"]
        try:
            per, found, und, inc = D.obligations(os.environ.get("VP_REPO", "/repo"), prog, os.path.join(tmp, "doc"))
        except D.Undecided as e:
            per, found, und, inc = {}, [], [("documentation", "", str(e))], []
        jobs = sorted(per)
        lost = lambda n: {"bad": [], "und": [[n, "", "not finished"]], "ok": 0, "steps": 0, "functions": []}
        rs = mod.parallel(jobs, lambda n: D.system(prog, n, per[n]), lambda n: 0.1, 8, 600, lost)
        viol = [{"unit": "%s:%d" % (f, l), "variant": "alloc", "kind": "sample", "what": m, "where": w} for f, l, m, w in found]
        fns = set()
        for n, r in zip(jobs, rs):
            viol += [{"unit": "%s:%d" % (f, l), "variant": "alloc", "kind": "sample", "what": "%s: %s" % (n, m), "where": w} for f, l, m, w in r["bad"]]
            und += r["und"]
            fns.update(r["functions"])
        ok = sum(r["ok"] for r in rs) + len(inc) - len(found)
        ev["coverage"] = {
            "obligations": ok + len(und) + len(viol),
            "discharged": ok,
            "checker_cmd": "cd /verif && ./check.sh %s %s" % (pid, tier),
            "trusted_base": TRUST[:3],
            "rule": self.what,
            "systems": len(jobs),
            "samples": sum(len(x) for x in per.values()),
            "blocks_interpreted": sum(r["steps"] for r in rs),
            "functions_analysed": sorted(fns),
            "undecided": [list(u) for u in und[:40]],
        }
        lines = []
        if und or not jobs:
            lines.append("UNDECIDED: property=%s %d samples (see evidence)" % (pid, len(und)))
        return viol, lines


PROPS["C28"] = Docs("every numeral in the documentation is what the code writes for its number (the code interpreted with the number known), and the documentation of each system shows its own samples")
PROPS["C22"] = Pure("Decided on every static, type, body and call of the crate: no mutable, interior-mutable, thread-local or foreign static; no type with interior mutability; no foreign call or inline assembly; callees only in core, alloc and nominals; every public type is Send and Sync without unsafe marker impls; no branch on the address of a value. Code that has none of these has no state to keep between calls and nothing to share between threads.")
PROPS["C23"] = NoAlloc("The crates linked without the alloc feature are core and compiler_builtins only. With it, the call graph from every formatting entry point reaches an allocating function of alloc only through the string type, which (see C17) allocates only beyond its inline capacity.")
GENERAL = ("additive", "digits", "sets", "combine", "hebrew", "ethiopic", "enumerated", "fallback")
PC(Widths, "C24", ("alloc",), lambda k, g, t, var: t is not None and (g in GENERAL or g == "chinese" and (t in ("u8", "u16", "u32", "u64") or k.endswith("_short"))), lambda k, g, t, var: t is not None and (g in GENERAL or g == "chinese" and t != "u128"), what="every integer type gives, for the same number, the same text or error")
