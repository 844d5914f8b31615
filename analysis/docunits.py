"""The sample numerals of the documentation (src/previews and the lists made from them), each an
obligation on the code that writes the numeral: with the number known, every path of the entry
point must end with exactly the documented text."""
import json, os, re, subprocess
import tables as TB
from engine import Adt, Engine, Mismatch, NS, Undecided, XFacts
from models import Models, ns_toks
from fnunits import FnSpec

MARKS = "\u200e"
T = "u32"


def entry_of(prog, name):
    for e in ("%s::sys::%s::e_fmt" % (T, name), "%s::chinese::%s::e_fmt" % (T, name)):
        if e in prog.entries:
            return e
    return None


def rows(text):
    """[(line, number, sample)] of the table of a preview"""
    out = []
    for i, l in enumerate(text.split("\n")):
        m = re.match(r"\|\s*(\d+)\s*\|(.*)\|\s*$", l)
        if m:
            out.append((i + 1, int(m.group(1)), m.group(2).strip(" ")))
    return out


def lists(text):
    """[(line, name, [sample])] of the list of all systems"""
    out = []
    for i, l in enumerate(text.split("\n")):
        m = re.match(r"- \[`(\w+)`\]\([^)]*\): (.*)$", l)
        if m:
            out.append((i + 1, m.group(1), m.group(2).replace(MARKS, "").split(" ")))
    return out


def read(repo):
    """tables {name: [(file, line, number, sample)]}, lists [(file, line, name, samples)], included [(file, line, type, preview)]"""
    tables, idx, inc = {}, [], []
    d = os.path.join(repo, "src", "previews")
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        p = "src/previews/" + f
        s = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
        if f == "index.md":
            idx += [(p, i, n, x) for i, n, x in lists(s)]
        else:
            tables[f[:-3]] = [(p, i, n, x) for i, n, x in rows(s)]
    q = os.path.join(repo, "README.md")
    if os.path.exists(q):
        idx += [("README.md", i, n, x) for i, n, x in lists(open(q, encoding="utf-8", errors="replace").read())]
    return tables, idx


def docs(repo, out):
    """what rustdoc would show, from its JSON output: ([(item, file, line, text)], text of the crate); the
    attributes are resolved by the compiler, wherever the text comes from"""
    env = dict(os.environ, CARGO_PKG_NAME="nominals", RUSTC_BOOTSTRAP="1")
    r = subprocess.run(
        ["rustdoc", "+nightly", "src/lib.rs", "--crate-name", "nominals", "--edition", "2021", "--cfg", 'feature="alloc"', "--cap-lints", "allow", "-Zunstable-options", "--output-format", "json", "-o", out],
        cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Undecided("rustdoc: " + r.stdout[-300:])
    d = json.load(open(os.path.join(out, "nominals.json")))
    items = []
    for i in d["index"].values():
        if i["crate_id"] == 0:
            sp = i["span"] or {"filename": "src/lib.rs", "begin": [1, 0]}
            items.append((i["name"] if "struct" in i["inner"] else None, sp["filename"], sp["begin"][0], i["docs"] or ""))
    return items, d["index"][str(d["root"])]["docs"] or ""


def examples(text):
    """[(system, number, text)] of the assertions in an example"""
    out = []
    for m in re.finditer(r'assert_eq!\(\s*(\d[\d_]*?)_?u32\.to_nominal\(&(\w+)\),\s*"([^"\\\\]*)",?\s*\)', text):
        out.append((m.group(2), int(m.group(1).replace("_", "")), m.group(3)))
    return out


def text_of(toks):
    out = []
    for t in toks:
        if t[0] != "c" or not isinstance(t[1], int):
            raise Undecided("a symbol that is not known: %r" % (t,))
        out.append(chr(t[1]))
    return "".join(out)


def show(s):
    return s if len(s) < 60 else s[:57] + "…"


def sample(prog, entry, n, text, res):
    """interprets the entry point for the number n"""
    eng = Engine(prog, Models(), oom=False)
    eng.opts["unroll"] = True
    eng.MAXSTEPS = 200000

    def check(eng, st, D, v):
        if not isinstance(v, NS) or v.base is not None:
            raise Undecided("result %r" % (v,))
        got = text_of(ns_toks(v))
        if got != text:
            raise Mismatch("the documentation shows %s for %d, the code writes %s" % (show(text), n, show(got)))

    spec = FnSpec(entry, check)
    eng.spec = spec

    def args(st, body):
        return [eng.symval(st, body["locals"][1], "s") if "::chinese::" not in entry else default(eng, st, prog, entry), n]

    st = eng.start(entry, args, ghost=spec.ghost(), facts=XFacts())
    eng.run(st)
    r = eng.res
    res["steps"] += r.steps
    res["functions"] |= {f for f in r.functions if prog.bodies[f]["crate"] == "nominals"}
    bad = [(m, w) for m, w, st in r.mismatches + r.panics]
    und = [m for m, w, st in r.undecided]
    if not bad and not und and not r.returns:
        und = ["never returns"]
    return bad, und


def default(eng, st, prog, entry):
    """a reference to the default system, from the code's own default()"""
    from engine import Ptr

    e = Engine(prog, Models(), oom=False)
    e.opts["unroll"] = True
    spec = FnSpec("default", lambda *a: None)
    e.spec = spec
    got = []

    def fin(st, v):
        got.append(v)
        return False

    e.finish = fin
    e.run(e.start("options::%s::e_default" % entry.split("::")[2], lambda st, body: [], ghost=spec.ghost(), facts=XFacts()))
    if len(got) != 1:
        raise Undecided("the default options")
    st.mem[("sym", "s")] = got[0]
    return Ptr(("sym", "s"), ())


def system(prog, name, samples):
    """[(file, line, message, where)], undecided, samples analysed"""
    res = {"steps": 0, "functions": set(), "ok": 0}
    bad, und, memo = [], [], {}
    entry = entry_of(prog, name)
    for f, line, n, text in samples:
        if (n, text) not in memo:
            try:
                memo[(n, text)] = sample(prog, entry, n, text, res)
            except Undecided as e:
                memo[(n, text)] = [], [str(e)]
            except Mismatch as e:
                memo[(n, text)] = [(e.msg, "")], []
        b, u = memo[(n, text)]
        if u:
            und.append((name, "%s:%d" % (f, line), u[0]))
        elif b:
            bad.append((f, line, b[0][0], b[0][1]))
        else:
            res["ok"] += 1
    return {"bad": bad, "und": und, "ok": res["ok"], "steps": res["steps"], "functions": sorted(res["functions"])}


def obligations(repo, prog, out):
    """({system: [(file, line, number, text)]}, plain violations, undecided, [documented types])"""
    tables, idx = read(repo)
    items, crate = docs(repo, out)
    idx += [("src/lib.rs (documentation of the crate)", i, n, x) for i, n, x in lists(crate)]
    per, viol, und, inc = {}, [], [], []
    for name, rs in tables.items():
        if entry_of(prog, name):
            per.setdefault(name, []).extend(rs)
    for f, line, name, xs in idx:
        if not entry_of(prog, name):
            continue
        # the samples of a list have no numbers: those of the table, in order
        rs = tables.get(name)
        if not rs:
            und.append((name, "%s:%d" % (f, line), "no table gives the numbers of the samples"))
            continue
        xs = [x for x in xs if x and x != "…"]
        if len(xs) != len(rs):
            und.append((name, "%s:%d" % (f, line), "%d samples where the table has %d" % (len(xs), len(rs))))
            continue
        per.setdefault(name, []).extend((f, line, r[2], x) for r, x in zip(rs, xs))
    for name, f, line, text in items:
        for n, num, x in examples(text):
            if entry_of(prog, n):
                per.setdefault(n, []).append((f, line, num, x))
        if not name or not entry_of(prog, name):
            continue
        rs = rows(text)
        heads = set(re.findall(r"^\| #\s*\| (\w+)\s*\|$", text, re.M))
        if rs and heads <= {name}:
            inc.append(name)
        elif rs:
            viol.append((f, line, "the documentation of %s shows the samples of %s" % (name, ", ".join(sorted(heads - {name}))), ""))
        elif tables.get(name):
            viol.append((f, line, "the documentation of %s shows no samples" % name, ""))
        per.setdefault(name, []).extend((f, line, n, x) for _, n, x in rs)
    return per, viol, und, inc
