"""Shared machinery of the checks: conformance of the implementation with the
outcomes TLC derives from the specification, verdicts, replay and evidence."""
import itertools, json, os, random, re, shutil, sys, time, hashlib
from collections import Counter
from . import nj, spec

VERIF = nj.VERIF
FINDINGS = os.path.join(VERIF, "known-findings.txt")


def known(prop):
    """-> {key: text} of the findings recorded for a property"""
    r = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3).strip()
    return r


def key_of(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True).encode("utf-8", "surrogateescape")).hexdigest()[:12]


class Ctx:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.count = Counter()
        self.kinds = Counter()
        self.samples = []
        self.distinct = set()
        self.violations = []
        self.known = known(prop)
        self.hit = {}
        self.extra = {}
        self.cap = 400
        self.budget = float(os.environ.get("NOJA_BUDGET", 40 if self.quick else 700))

    def n(self, quick, thorough=None):
        """how many cases to make in this tier"""
        return quick if self.quick else (thorough if thorough is not None else quick * 12)

    def left(self):
        return self.budget - (time.time() - self.t0)

    def violation(self, what, case, key=None):
        """case: JSON-able description sufficient to replay"""
        key = key or key_of(case)
        if key in self.known:
            self.hit[key] = self.known[key]
            return
        self.violations.append((what, case, key))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def finish(self):
        cov = {
            "states": spec.TOTALS["states"], "transitions": spec.TOTALS["transitions"],
            "traces_validated_against_impl": self.count["compared"],
            "evaluations": self.count["run"], "distinct_nontrivial": len(self.distinct),
            "rule": "programs built by the generators of checks/%s; distinct program texts whose outcome the "
                    "specification determines and the implementation was compared on" % self.prop,
            "no_claim": self.count["noclaim"], "outcomes": dict(self.kinds), "samples": self.samples or ["none"],
        }
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": "thorough" if self.tier == "thorough" else "quick", "seed": self.seed,
              "level": self.level, "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        for k, t in sorted(self.hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, t))
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            for what, case, key in self.violations[:5]:
                p = os.path.join(d, "%s-%s.json" % (self.prop, key))
                with open(p, "w") as f:
                    json.dump({"property": self.prop, "what": what, "case": case}, f, indent=1, ensure_ascii=True)
                print("  %s" % what.replace("\n", "\n  ")[:1500])
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        print("%s ok: %d compared, %d without claim, %d states, %.1f s" %
              (self.prop, self.count["compared"], self.count["noclaim"], spec.TOTALS["states"], time.time() - self.t0))
        return 0


# ---------------------------------------------------------------- file trees
_trees = itertools.count()


def plant_tree(fs, src):
    """create the file system of a scenario in a scratch directory -> its root"""
    base = os.path.join(nj.workdir(), "t%d_%d" % (os.getpid(), next(_trees)))
    root = os.path.join(base, "w")
    os.makedirs(os.path.join(root, fs.get("cwd", "")))
    for d in fs.get("dirs", ()):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    files = dict(fs["files"])
    if fs.get("main"):
        files[fs["main"]] = src
    for p, t in files.items():
        q = os.path.join(root, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(t if isinstance(t, bytes) else t.replace("/w/", root + "/").encode("utf-8", "surrogateescape"))
    return root


def inside(x, root):
    """replace the scratch root in observed text by /w and normalise such paths"""
    if isinstance(x, str):
        if root not in x:
            return x
        def tidy(t):
            m = re.match(r"(?:/[^\s'\"|:;,\]]*)?", t)
            p = "/w" + m.group(0)
            q = os.path.normpath(p)
            return q + ("/" if p.endswith("/") and q != "/" else "") + t[m.end():]
        first, *rest = x.split(root)
        return first + "".join(map(tidy, rest))
    if isinstance(x, list):
        return [inside(y, root) for y in x]
    if isinstance(x, dict):
        return {k: inside(v, root) for k, v in x.items()}
    return x


def harvest(root):
    t = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                t[os.path.relpath(p, root)] = h.read().hex()
    return t


def execute(jobs, variant="asan", keep=None):
    """nj.run, with a fresh scratch file system for the jobs that want one"""
    roots, real = [], []
    for j in jobs:
        if not j.get("fs"):
            roots.append(None)
            real.append(j)
            continue
        fs, root = j["fs"], plant_tree(j["fs"], j["src"])
        cwd = os.path.join(root, fs.get("cwd", "")).rstrip("/")
        o = dict(j["opts"], cwd=cwd)
        if fs.get("main"):
            full = os.path.join(root, fs["main"])
            o.update(lang="file", path=os.path.relpath(full, cwd) if fs.get("rel", True) else full)
        roots.append(root)
        src = j["src"].replace("/w/", root + "/")
        if re.search(r"['\"]/(?!%s/|dev/(?:full|null)['\"]|['\"])" % re.escape(root[1:]), src):
            raise RuntimeError("a path outside of the scratch directory: " + src)
        real.append(dict(j, src=src, opts=o))
    res = nj.run(real, variant)
    out = []
    for a, root in zip(res, roots):
        if root:
            a = inside(a, root)
            a["tree"] = harvest(root)
            shutil.rmtree(os.path.dirname(root), ignore_errors=True)
        out.append(a)
    return out


# --------------------------------------------------------------- comparison
def frames(bt):
    """[(name, line|None)] innermost first"""
    if bt is None:
        return None
    r = []
    for line in bt.split("\n")[1:]:
        if not line.strip():
            continue
        m = re.match(r"\s*#\d+ (.*)$", line)
        if not m:
            return None
        t = m.group(1)
        k = re.match(r"(.*):(\d+)$", t)
        r.append((k.group(1), int(k.group(2))) if k else (t, None))
    return r


def compare_trace(exp, act, names):
    """exp: [[code, line]] innermost first; names: code id -> source name"""
    a = frames(act.get("bt"))
    if a is None:
        return "no stack trace"
    e = [list(x) for x in exp]
    if any(c == 1 for c, _ in e):           # library code: only what is outside of it
        cut = max(i for i, (c, _) in enumerate(e) if c == 1)
        e = e[cut + 1:]
        if len(a) < len(e):
            return "stack trace has %d entries, expected at least %d" % (len(a), len(e))
        a = a[len(a) - len(e):]
    if len(a) != len(e):
        return "stack trace has %d entries, expected %d" % (len(a), len(e))
    for i, ((c, ln), (nm, al)) in enumerate(zip(e, a)):
        if c == 0:
            if al is not None:
                return "stack entry %d: expected a native function, got %s:%s" % (i, nm, al)
        elif al is None and ln != 0:
            return "stack entry %d: expected line %d, got %s" % (i, ln, nm)
        elif ln > 0 and al != ln:
            return "stack entry %d: expected line %d, got line %d" % (i, ln, al)
        elif names and c in names and os.path.basename(nm) != os.path.basename(names[c]):
            return "stack entry %d: expected source %s, got %s" % (i, names[c], nm)
    return None


BAD = ("crash", "timeout", "lost", "boot", "harness", "max", "gcfail")


def judge(exp, act, lines=False, names=None, out=True, msg=True):
    """None when the observation agrees with the specification's outcome."""
    st = act.get("st")
    if st in BAD:
        return "expected %s, but the run ended with '%s' %s" % (
            describe(exp), st, " ".join(str(act.get(k, "")) for k in ("why", "sig", "msg"))[:300])
    if exp["st"] == "done":
        if st != "ok":
            return "expected completion with %s, got %s error: %s" % (json.dumps(exp["rets"])[:300], act.get("etype"), act.get("msg"))
        if act.get("rets") != exp["rets"]:
            return "expected results %s, got %s" % (json.dumps(exp["rets"])[:400], json.dumps(act.get("rets"))[:400])
    else:
        if st != "err":
            return "expected %s, but it completed with %s" % (describe(exp), json.dumps(act.get("rets"))[:300])
        if exp["cat"] != "any" and act.get("etype") != exp["cat"]:
            return "expected %s, got %s error: %s" % (describe(exp), act.get("etype"), act.get("msg"))
        if msg and exp["msg"] and exp["cat"] != "any" and act.get("msg") != exp["msg"].split("\0")[0]:   # messages are C strings
            return "expected %s, got: %s" % (describe(exp), act.get("msg"))
        if lines and exp["tr"]:
            t = compare_trace(exp["tr"], act, names)
            if t:
                return t
    if exp.get("tree") is not None and act.get("tree") is not None:
        x, y = exp["tree"], act["tree"]
        if set(x) != set(y):
            return "expected the files %s, found %s" % (sorted(x), sorted(y))
        for p in x:
            if x[p] not in ("?", "script") and x[p] != y[p]:
                return "expected file %s to hold %r, found %r" % (p, bytes.fromhex(x[p])[:200], bytes.fromhex(y[p])[:200])
    if out and act.get("out") != exp["out"]:
        return "expected output %s, got %s" % (json.dumps(exp["out"])[:400], json.dumps(act.get("out"))[:400])
    return None


def describe(e):
    return "completion with %s" % json.dumps(e["rets"])[:200] if e["st"] == "done" else "%s error '%s'" % (e["cat"], e["msg"])


def thin(ctx, s):
    """bound the number of combinations of a template by dropping alternatives"""
    cap = ctx.n(ctx.cap, ctx.cap * 12)
    if spec.weight(s) <= cap:
        return s
    s = dict(s, holes=[list(h) for h in s["holes"]])
    while spec.weight(s) > cap:
        i = max(range(len(s["holes"])), key=lambda j: -1 if s["same"][j] else len(s["holes"][j]))
        h = s["holes"][i]
        k = ctx.rng.randrange(len(h))
        for j in range(len(s["holes"])):      # occurrences that repeat this choice
            if j == i or s["same"][j] == i + 1:
                del s["holes"][j][k]
    return s


def conform(ctx, scns, variant="asan", schedules=({},), lines=False, out=True, msg=True, need=None, chunk=2000, driver=None):
    """Explore the scenarios with TLC and hold the implementation to every
    outcome, under every schedule (driver options)."""
    todo = [thin(ctx, s) for s in scns]
    for c in range(0, len(todo), chunk):
        pairs = spec.explore(todo[c:c + chunk])
        use = []
        for s, e in pairs:
            ctx.count["run"] += 1
            if e["st"] in ("unsup", "long"):
                ctx.count["noclaim"] += 1
                continue
            if need and not need(s, e):
                ctx.count["noclaim"] += 1
                continue
            ctx.kinds[e["st"] if e["st"] == "done" else "error " + (e["cat"] or "?")] += 1
            use.append((s, e))
        compare_all(ctx, use, variant, schedules, lines, out, msg, driver)
        if ctx.violations:
            return


def shown(fs):
    return fs and dict(fs, files={p: t if isinstance(t, str) else t.hex() for p, t in fs["files"].items()})


def to_driver(s, sched):
    if "gc" in sched and "heap" not in sched:
        sched = dict(sched, heap=1 << 20)     # small heap: forced collections stay cheap
    return {"src": s["src"], "stdin": s.get("stdin", ""), "fs": s.get("fs"), "opts": dict(s.get("opts", {}), **sched)}


def compare_all(ctx, use, variant="asan", schedules=({},), lines=False, out=True, msg=True, driver=None):
    run = driver or (lambda js: execute(js, variant))
    jobs, meta = [], []
    for s, e in use:
        for sc in schedules:
            if callable(sc):
                sc = sc(s, e)
                if sc is None:
                    continue
            jobs.append(to_driver(s, sc))
            meta.append((s, e, sc))
    def observed():
        c, n = 0, 80
        while c < len(jobs):                 # small batches first: a broken tree is often slow
            for x in zip(meta[c:c + n], jobs[c:c + n], run(jobs[c:c + n])):
                yield x
                if len(ctx.violations) >= 3:
                    return
            c, n = c + n, min(640, 2 * n)
    for (s, e, sc), j, a in observed():
        ctx.count["compared"] += 1
        ctx.distinct.add(hash(s["src"]))
        w = judge(e, a, lines, s.get("names"), out, msg)
        if w:
            a2 = run([j])[0]
            w2 = judge(e, a2, lines, s.get("names"), out, msg)
            if w2:
                ctx.violation("%s\n%s" % (w2, s["src"][:1200]),
                              {"src": s["src"], "stdin": s.get("stdin", ""), "fs": shown(s.get("fs")), "opts": j["opts"],
                               "expected": e, "observed": {k: a2.get(k) for k in ("st", "etype", "msg", "out", "rets", "bt", "why", "log")}})
    for s, e in use[:: max(1, len(use) // 3)][:3]:
        ctx.sample({"src": s["src"][:400], "expected": {k: e[k] for k in ("st", "cat", "msg", "out", "rets")}})
