"""Run TLC on the specification and turn its outcomes into the form the
conformance driver reports (so the two can be compared)."""
import json, os, subprocess, glob, re
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from . import nj

SPEC = os.path.join(nj.VERIF, "spec")
CP = ":".join(sorted(glob.glob("/opt/veriftools/tla/*.jar")))
# characters every run knows besides the ones its programs contain
JOPTS = ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"]
BASE = [9, 10, 11, 12, 13] + list(range(32, 127)) + [0xA9, 0xDF, 0xE9, 0x7FF, 0x800, 0x4E2D, 0x20AC, 0xFFFD, 0x1F600, 0x10000, 0x10FFFF, 0, 1, 127, 128]
TOTALS = {"states": 0, "transitions": 0, "jvm": 0}


class SpecError(Exception):
    pass


class Alphabet:
    """Code points <-> single BMP characters usable in TLA+ strings."""
    def __init__(self, texts):
        pts = set(BASE)
        for t in texts:
            pts.update(map(ord, t))
        self.enc, self.dec, nxt = {}, {}, 0xE000
        for u in sorted(pts):
            if 0 < u < 0xD800 and u not in (0x0B, 0x0C) or 0xF900 <= u < 0xFFFE:
                c = chr(u)
            else:
                c = chr(nxt); nxt += 1
            self.enc[u] = c
            self.dec[c] = chr(u)
        self.chars = [{"c": c, "u": u} for u, c in self.enc.items()]

    def to(self, s):
        return "".join(self.enc[ord(c)] for c in s)

    def back(self, s):
        return "".join(self.dec.get(c, c) for c in s)

    def back_all(self, x):
        if isinstance(x, str):
            return self.back(x)
        if isinstance(x, list):
            return [self.back_all(y) for y in x]
        if isinstance(x, dict):
            return {k: self.back_all(v) for k, v in x.items()}
        return x


def tlc(module, cfg=None, subst=None, extra=(), timeout=800, workers=1, xss="512m", heap="3g", tag=""):
    """Run TLC on a specification module; `subst` fills the %NAME% places of its
    configuration file.  Returns (stdout, ok)."""
    md = os.path.join(nj.workdir(), "md%d_%s" % (os.getpid(), tag or module))
    text = open(os.path.join(SPEC, cfg or module + ".cfg")).read()
    for k, v in (subst or {}).items():
        text = text.replace("%" + k + "%", str(v))
    cfgfile = md + ".cfg"
    open(cfgfile, "w").write(text)
    cmd = ["java", "-Xss" + xss, "-Xmx" + heap, ] + JOPTS + [
           "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + nj.workdir(), "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfgfile] + list(extra) + \
          [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ, LC_ALL="C.UTF-8")
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=nj.workdir())
        out = p.stdout.decode("utf-8", "replace")
        rc = p.returncode
    except subprocess.TimeoutExpired as t:
        out, rc = (t.stdout or b"").decode("utf-8", "replace") + "\nTIMEOUT", -1
    subprocess.run(["rm", "-rf", md, cfgfile])
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    if m:
        TOTALS["transitions"] += int(m[-1][0].replace(",", ""))
        TOTALS["states"] += int(m[-1][1].replace(",", ""))
    TOTALS["jvm"] += 1
    return out, rc == 0


def read_out(path):
    rows = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                line = line.rstrip("\n")
                if line:
                    rows.append(json.loads(json.loads(line)))
        os.unlink(path)
    return rows


_prelude = None


def prelude():
    global _prelude
    if _prelude is None:
        _prelude = open(os.path.join(SPEC, "prelude.noja")).read()
    return _prelude


# ------------------------------------------------------------------ results
def fltnum(v):
    """the double a specification float stands for"""
    if v[0] == "f":
        return -0.0 if v[2] else v[1] / 64
    n = sum(d * 10000 ** i for i, d in enumerate(v[2]))
    return float(Fraction(-n if v[1] else n) * Fraction(2) ** v[3])


def fltval(v):
    """the driver's notation of it"""
    f = fltnum(v)
    w = f * 64
    return ["f", int(w)] if abs(w) < 1e15 and w == int(w) else ["F", "%.17g" % f]


def canon(rets, objs):
    """Outcome values in the driver's notation."""
    h = {a: o for a, o, _ in objs}
    txt = {a: x for a, _, x in objs}
    seen = {}
    nodes = [0]

    def big(v):
        n = sum(d * 10000 ** i for i, d in enumerate(v[2]))
        return -n if v[1] else n

    def go(v):
        nodes[0] += 1
        if nodes[0] > 6000:
            return ["..."]
        k = v[0]
        if k in ("n", "b", "i", "s", "T"):
            return v
        if k == "I":
            return ["i", big(v)]
        if k == "f":
            return ["f", "-0"] if v[2] else ["f", v[1]]
        if k == "F":
            return fltval(v)
        if k == "x": return ["x", "native function"]
        if k == "m": return ["x", "static map"]
        if k == "any": return ["t", "<AnyType is unprintable>"]
        o = h[v[1]]
        t = o["t"]
        if t == "F": return ["x", "function"]
        if t == "C": return ["x", "Closure"]
        if t == "H": return ["File"]
        if t == "D": return ["Dir"]
        if t in "NS": return ["t", txt[v[1]]]
        if v[1] in seen:
            return ["r", seen[v[1]]]
        seen[v[1]] = n = len(seen) + 1
        if t == "L": return ["L", n, [go(x) for x in o["e"]]]
        # what a list or a map is the key of can't be looked up; it's seen when printed
        if t == "M": return ["M", n, len(o["k"]), [[go(a), go(b) if a[0] != "r" else ["NULL"]] for a, b in zip(o["k"], o["v"])]]
        if t == "B": return ["B", n, h[o["p"]]["b"][o["o"]:o["o"] + o["n"]][:4096]]
        raise ValueError(t)
    return [go(v) for v in rets]


def scripts(fs):
    """paths of the importable sources other than the program itself"""
    return [p for p in fs["files"] if p.endswith(".noja") and p != fs.get("main")]


def tree_of(s, al):
    """the initial file system of a scenario, for the specification"""
    fs = s.get("fs")
    if not fs:
        return {"on": False, "cwd": [], "files": [], "dirs": []}
    comps = lambda p: ["w"] + [al.to(x) for x in p.split("/") if x]
    sc = scripts(fs)
    files = [{"p": comps(p), "b": [] if p in sc else list(t if isinstance(t, bytes) else t.encode()), "c": sc.index(p) + 3 if p in sc else 0}
             for p, t in fs["files"].items() if p != fs.get("main")]
    if fs.get("main"):
        files.append({"p": comps(fs["main"]), "b": [], "c": 2})
    dirs = {("w",)}
    for p in [f["p"] for f in files] + [comps(d) + ["x"] for d in fs.get("dirs", ())] + [comps(fs.get("cwd", "")) + ["x"]]:
        for i in range(1, len(p)):
            dirs.add(tuple(p[:i]))
    return {"on": True, "cwd": comps(fs.get("cwd", "")), "files": files, "dirs": sorted(dirs)}


def fs_texts(s):
    fs = s.get("fs")
    return [t for p, t in fs["files"].items() if p.endswith(".noja")] + list(fs["files"]) + list(fs.get("dirs", ())) + [fs.get("cwd", "")] if fs else []


def net_of(s):
    """the peers of a scenario, for the specification"""
    n = s.get("net")
    if not n:
        return {"on": False, "acts": [], "pe": []}
    return {"on": True, "acts": [[[list(x) if isinstance(x, bytes) else x for x in a] for a in g] for g in n["acts"]],
            "pe": [{"st": "none", "b": [], "shut": False, "open": True, "got": [], "lost": False, "hard": False} for _ in range(n["peers"])]}


def weight(s):
    n = 1
    for h, k in zip(s.get("holes", ()), s.get("same") or [0] * 99):
        n *= 1 if k else len(h)
    return n


def sources(s):
    return list(s["parts"]) + [x for h in s["holes"] for x in h] if "parts" in s else [s["src"]]


def explore(scns, jobs=8, chunk=40, default_max=6000, module="NojaRun"):
    """scns: dicts {src | parts+holes, stdin?, mods?: {path: text}, max?}.  TLC
    fills the holes in every way.  Returns a list of (scenario, outcome) with a
    concrete 'src' in each; outcome is dict(st, cat, msg, out, rets, tr)."""
    if not scns:
        return []
    total = sum(map(weight, scns))
    jobs = max(1, min(jobs, (total + 39) // 40, len(scns)))
    order = sorted(range(len(scns)), key=lambda i: -weight(scns[i]))
    parts, load = [[] for _ in range(jobs)], [0] * jobs
    for i in order:
        j = load.index(min(load))
        parts[j].append(i)
        load[j] += weight(scns[i])
    res = {}

    def one(j):
        part = parts[j]
        texts = [prelude()]
        for i in part:
            s = scns[i]
            texts += sources(s) + [s.get("stdin", "")] + fs_texts(s)
        al = Alphabet(texts)
        rows_in = []
        for i in part:
            s = scns[i]
            rows_in.append({"id": i, "parts": [al.to(x) for x in s.get("parts", [s.get("src")])],
                            "holes": [[al.to(x) for x in h] for h in s.get("holes", [])], "same": s.get("same") or [0] * len(s.get("holes", [])), "inp": al.to(s.get("stdin", "")),
                            "mods": [al.to(s["fs"]["files"][p]) for p in scripts(s["fs"])] if s.get("fs") else [], "fs": tree_of(s, al),
                            "max": s.get("max", default_max), "live": bool(s.get("live")), "gcs": s.get("gcs", 0), "asm": bool(s.get("asm")),
                            "pol": s.get("pol", 0), "net": net_of(s)})
        doc = {"chars": al.chars, "prelude": al.to(prelude()), "chunk": chunk, "scns": rows_in}
        fi = os.path.join(nj.workdir(), "tlc%d_%d.json" % (os.getpid(), j))
        fo = fi + ".out"
        json.dump(doc, open(fi, "w", encoding="utf-8"), ensure_ascii=False)
        out, ok = tlc(module, None, {"IN": fi, "OUT": fo}, tag="r%d" % j)
        os.unlink(fi)
        rows = read_out(fo)
        if not ok or len({(r["id"], tuple(r["fill"])) for r in rows}) != sum(weight(scns[i]) for i in part):
            raise SpecError("TLC failed on %d/%d scenarios:\n%s" % (len(rows), len(part), explain(out)))
        for r in rows:
            r = al.back_all(r)
            key = (r["id"], tuple(r["fill"])) + ((tuple(r["at"]),) if "at" in r else ())
            o = outcome(r)
            if key in res and res[key] != o:         # depends on a choice that is open
                o = dict(o, st="unsup")
            res[key] = o
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, range(jobs)))
    out = []
    for key, o in sorted(res.items(), key=lambda kv: kv[0]):
        i, f = key[:2]
        s = scns[i]
        if "parts" in s:
            src = s["parts"][0] + "".join(s["holes"][n][k - 1] + s["parts"][n + 1] for n, k in enumerate(f))
            s = dict({k: v for k, v in s.items() if k not in ("parts", "holes", "same")}, src=src, fill=f)
        out.append((s, o))
    return out


def run(scns, **kw):
    return [o for _, o in explore(scns, **kw)]


def outcome(r):
    e = {"outs": r["out"], "st": r["st"], "cat": r["cat"], "msg": r["msg"], "out": "".join(r["out"]), "tr": r["tr"], "rets": None}
    if r["st"] == "done":
        e["rets"] = canon(r["ret"], r["objs"])
    if r["tree"]:
        e["tree"] = {"/".join(p[1:]): bytes(b).hex() if k == "data" else k for p, k, b in r["tree"]}
    if r.get("peers"):
        e["peers"] = [[x, bytes(b).hex()] for x, b in r["peers"]]
    for k in ("hist", "live", "made", "n", "at", "hi", "lib"):        # observations of NojaObs
        if k in r:
            e[k] = r[k]
    return e


def explain(out):
    i = out.find("Semantic errors:")
    i = i if i >= 0 else out.find("Error:")
    return out[i:i + 1800] if i >= 0 else out[-1800:]
