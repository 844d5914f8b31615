"""check.py PROPERTY TIER: decides one property of /repo's working tree."""
import collections, gc, json, mmap, os, re, select, shutil, signal, subprocess, sys, tempfile, time, traceback

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analysis"))
sys.setrecursionlimit(20000)

import props
import cells
import units as U
import fnunits as FU
from engine import Engine, Program
from models import Models

PROGS = {}


class TimeUp(Exception):
    pass


def build(out):
    r = subprocess.run(["bash", os.path.join(V, "build.sh"), out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return r.returncode, r.stderr


def with_alarm(sec, f):
    def h(*a):
        raise TimeUp()

    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def analyse(job, exact=False, stop=False, limit=300, free=False, pins=(), loops=True, maxsteps=None, keep=False, unroll=False):
    """(result dict)"""
    var, uid, key, mk, mode = job
    prog = PROGS[var]
    out = {"id": uid, "variant": var, "panics": [], "mismatches": [], "undecided": [], "loops": [], "measures": 0, "steps": 0, "nodes": 0, "returns": {}, "functions": [], "tokens": 0, "calls": 0}
    hold = []
    try:
        eng, spec = with_alarm(limit, lambda: U.run_unit(prog, mk, key, oom=(var == "noalloc"), exact=exact, mode=mode, stop=stop, free=free, pins=pins, maxsteps=maxsteps, hold=hold, **({"unroll": True} if unroll else {})))
    except TimeUp:
        out["undecided"].append(("time limit of %d s" % limit, ""))
        if not hold:
            return out
        eng, spec = hold[0]  # what was found until then
    except RecursionError:
        out["undecided"].append(("recursion limit of the analysis", ""))
        return out
    except Exception as e:
        out["undecided"].append(("analysis: %s %s" % (type(e).__name__, traceback.format_exc(limit=-2).replace("\n", " | ")[-300:]), ""))
        return out
    r = eng.res
    ok = getattr(spec, "panic_ok", None)
    panics = [(m, w, s) for m, w, s in r.panics if not (ok and ok(s))]
    out["panics"] = dedupe((m, w, facts_of(s)) for m, w, s in panics)
    out["mismatches"] = dedupe((m, w, facts_of(s)) for m, w, s in r.mismatches)
    out["undecided"] += [x[:2] for x in dedupe((m, w, None) for m, w, s in r.undecided)]
    out["steps"], out["nodes"], out["calls"] = r.steps, len(r.nodes), r.calls
    out["returns"] = dict(spec.stats["returns"])
    out["tokens"] = spec.stats["tokens"]
    out["functions"] = sorted(f for f in r.functions if prog.bodies[f]["crate"] == "nominals")
    stuck = []
    if loops and not r.mismatches and not (r.panics and not free) and not out["undecided"] and not stop:
        try:
            bad, n = with_alarm(limit, eng.check_termination)
            out["loops"] = [str(b)[:400] for b in bad]
            out["measures"] = n
            stuck = [nd.state for nd in r.nodes if any(nd.name in b for b in bad)]
        except TimeUp:
            out["undecided"].append(("time limit in the termination argument", ""))
    if keep:
        out["_eng"] = eng
        first, again, had = [], [], set()
        for m, w, s in panics + r.mismatches:
            if s is not None:
                (again if (m, w) in had else first).append(s)
                had.add((m, w))
        out["_states"] = first + again
        out["_stuck"] = stuck
    return out


def facts_of(st):
    if st is None:
        return ""
    try:
        return st.F.describe() if hasattr(st.F, "describe") else ""
    except Exception:
        return ""


def dedupe(xs):
    seen, out = set(), []
    for m, w, f in xs:
        if (m, w) not in seen:
            seen.add((m, w))
            out.append((m, w, f))
        if len(out) >= 20:
            break
    return out


CONFIRMED = mmap.mmap(-1, 8)  # units with a confirmed alarm, over all processes


def confirm(job, states, eng, want, t_end, free=False):
    """the alarm again in extreme cells of the states in which it was raised: a description, or None"""
    seen = set()
    for st in states[:6]:
        try:
            cs = with_alarm(20, lambda: cells.cells(eng, st))
        except (TimeUp, Exception):
            continue
        for pins in cs[:6]:
            k = tuple(pins)
            if k in seen:
                continue
            seen.add(k)
            left = t_end - time.time()
            if left < 2 or len(seen) > 16:
                return None
            x = analyse(job, exact=not free, stop=not free, limit=min(left, 25), free=free, pins=pins, loops=False, maxsteps=400_000, keep=True)
            e = x.pop("_eng", None)
            x.pop("_states", None)
            x.pop("_stuck", None)
            hit = want(x, e)
            if hit:
                return {"mismatches": [["%s, for %s" % (hit[0], cells.show(pins)), hit[1], ""]], "panics": []}
    return None


def want_any(x, e):
    for l in (x["panics"], x["mismatches"]):
        if l:
            return l[0][0], l[0][1]


def want_panic(x, e):
    if x["panics"]:
        return x["panics"][0][0], x["panics"][0][1]


def want_stuck(x, e):
    """a cycle of loop heads that each stand for a single state"""
    if e is None:
        return None
    for m, w, s in e.res.mismatches:
        if "recursion does not end" in m:
            return m, w
    point = lambda n: not n.gen and n.ver == 0 and all(isinstance(v, (int, bool)) for _, v in n.leaves if v is not None)
    g = {}
    for a, ver, b, _, _ in e.res.edges:
        if ver == a.ver:
            g.setdefault(a.id, set()).add(b.id)
    nodes = {n.id: n for n in e.res.nodes}
    for i, n in nodes.items():
        j, k = i, 0
        while k <= len(nodes):
            if not point(nodes[j]) or len(g.get(j, ())) != 1:
                break
            j = next(iter(g[j]))
            k += 1
            if j == i:
                return "the loop returns to the state in which it was before", n.name
    return None


def work(job, opts):
    t0 = time.time()
    limit = opts.get("limit", 300)
    kinds = opts.get("kinds", ())
    r = None
    if CONFIRMED[0] >= 3 and not opts.get("all"):
        return not_run(job, "not analysed: violations were found before")
    if set(kinds) <= {"panic", "loop"} and kinds:
        # the text does not matter
        r = analyse(job, limit=limit, free=True, loops="loop" in kinds, keep=True)
        x = {k: r.pop(k, None) for k in ("_eng", "_states", "_stuck")}
        r["confirmed"] = None
        if "loop" in kinds:
            r["panics"] = []
        bad = r["panics"] or r["loops"] or r["mismatches"]
        if bad or r["undecided"]:
            r2 = analyse(job, limit=limit, loops="loop" in kinds)
            if not (r2["panics"] or r2["mismatches"] or r2["undecided"] or r2["loops"]):
                r2["confirmed"] = None
                r = r2
            elif bad:
                r["confirmed"] = False
                if CONFIRMED[0] < 3:
                    want = want_stuck if "loop" in kinds else want_panic
                    c = confirm(job, x["_stuck"] + x["_states"] if "loop" in kinds else x["_states"], x["_eng"], want, time.time() + opts.get("confirm", 120), free=True)
                    if c:
                        r["confirmed"] = c
                        CONFIRMED[0] += 1
        r["wall"] = time.time() - t0
        return r
    r = analyse(job, limit=limit, keep=True, loops=False)
    eng, states = r.pop("_eng", None), r.pop("_states", None)
    r.pop("_stuck", None)
    r["confirmed"] = None
    if r["mismatches"] or r["panics"]:
        # abstraction (joined states, consumed strings) can be the reason: look again without it
        r["confirmed"] = False
        if CONFIRMED[0] < 3 and not opts.get("all"):
            t_end = time.time() + opts.get("confirm", 120)
            c = confirm(job, states, eng, want_any, t_end)
            if not c:
                # without joins
                x = analyse(job, exact=True, stop=True, limit=max(5, t_end - time.time()), unroll=True, loops=False, keep=True)
                e, sts = x.pop("_eng", None), x.pop("_states", None)
                if x["mismatches"] or x["panics"]:
                    if not cells.inputs(e, sts[0]):
                        c = {"mismatches": x["mismatches"], "panics": x["panics"]}
                    else:
                        c = confirm(job, sts, e, want_any, max(t_end, time.time() + 30))
                if not c:
                    r["confirm_undecided"] = x["undecided"][:3] or [["no input found", ""]]
            if c:
                r["confirmed"] = c
                if opts.get("count", True):
                    CONFIRMED[0] += 1
    r["wall"] = time.time() - t0
    return r


def parallel(items, fn, weight, nproc, budget, lost):
    """[fn(item)], in forked children; lost(item): the result of an item whose child died or ran out of time"""
    results = [None] * len(items)
    order = sorted(range(len(items)), key=lambda i: -weight(items[i]))
    running = {}
    deadline = time.time() + budget
    nxt = 0
    chunks = []
    total = sum(weight(x) for x in items)
    size = min(2.0, max(0.05, total / (nproc * 6)))
    cur, cw = [], 0.0
    for i in order:  # small items are bundled
        cur.append(i)
        cw += weight(items[i])
        if cw >= size:
            chunks.append(cur)
            cur, cw = [], 0.0
    if cur:
        chunks.append(cur)

    def take(buf):
        for l in buf.decode("utf-8", "replace").splitlines():
            try:
                i, r = json.loads(l)
                results[i] = r
            except ValueError:
                pass

    while nxt < len(chunks) or running:
        while nxt < len(chunks) and len(running) < nproc:
            rd, wr = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                code = 0
                try:
                    gc.freeze()
                    with os.fdopen(wr, "w") as f:
                        for i in chunks[nxt]:
                            f.write(json.dumps([i, fn(items[i])], default=str) + "\n")
                            f.flush()
                except BaseException:
                    traceback.print_exc()
                    code = 1
                os._exit(code)
            os.close(wr)
            running[rd] = (pid, b"")
            nxt += 1
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for fd in ready:
            data = os.read(fd, 1 << 20)
            pid, buf = running[fd]
            if data:
                running[fd] = (pid, buf + data)
            else:
                os.close(fd)
                os.waitpid(pid, 0)
                del running[fd]
                take(buf)
        if time.time() > deadline:
            for fd, (pid, buf) in running.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                take(buf)
            break
    return [lost(x) if r is None else r for x, r in zip(items, results)]


def not_run(j, why):
    return {"id": j[1], "variant": j[0], "panics": [], "mismatches": [], "undecided": [(why, "")], "loops": [], "measures": 0, "steps": 0, "nodes": 0, "returns": {}, "functions": [], "tokens": 0, "calls": 0, "confirmed": None, "wall": 0}


def pool(jobs, opts, nproc):
    lost = lambda j: not_run(j, "not finished within the time budget")
    return parallel(jobs, lambda j: work(j, opts), lambda j: props.weight(j[1], j[0]), nproc, opts.get("budget", 600), lost)


def known():
    out = []
    try:
        for l in open(os.path.join(V, "known-findings.txt")):
            l = l.strip()
            if l.startswith("finding: "):
                m = re.match(r"finding: property=(\S+) unit=(\S+) message=(.*?) \| (.*)$", l)
                if m:
                    out.append(m.groups())
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = props.PROPS[pid]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vp-", dir="/tmp")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P.level, "coverage": {}, "wall_s": 0.0, "violations": 0, "assumptions": P.assumptions}
    viol = []
    lines = []
    try:
        code, err = build(tmp)
        if code != 0:
            if code == 4:
                viol.append({"what": "the program that states the property over the public API does not build", "detail": err[-3000:]})
            else:
                print("cannot build the analysis driver: %s" % err[-2000:], file=sys.stderr)
                return 2
        else:
            viol, lines = P.run(pid, tier, tmp, ev, sys.modules[__name__])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return finish(pid, ev, viol, lines, t0)


def finish(pid, ev, viol, lines, t0):
    kn = known()
    left = []
    for v in viol:
        hit = None
        for p, unit, msg, desc in kn:
            if p == pid and v.get("unit") == unit and msg in v.get("what", ""):
                hit = desc
                break
        if hit:
            l = "KNOWN-FINDING: property=%s %s" % (pid, hit)
            if l not in lines:
                lines.append(l)
        else:
            left.append(v)
    ev["violations"] = len(left)
    ev["wall_s"] = round(time.time() - t0, 2)
    if not ev["coverage"]:
        ev["coverage"] = {"explanation": "build failed", "obligations": 1, "discharged": 0, "checker_cmd": "", "trusted_base": []}
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for l in lines:
        print(l)
    if left:
        rp = os.path.join(V, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for v in left[:50]:
                f.write(json.dumps(v, ensure_ascii=False, indent=1) + "\n")
        for v in left[:5]:
            print("  %s: %s" % (v.get("unit", ""), v["what"]))
            if v.get("where"):
                print("    in %s" % v["where"])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    rc = 0
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
