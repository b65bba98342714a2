"""The command line tool: options, program files and inline programs, exit
status, output, errors, profile, interruption."""
import itertools, json, os, re, shutil, signal, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from lib import nj, spec, common
from . import check
from .util import progs, some
from .env import file_program, script_world, world, names_of

OPTIONS = ["-h, --help", "-i, --inline", "-a, --assembly", "-p, --profile", "-o, --output", "-H, --heap", "--diagram-ast"]
COUNT = itertools.count()


def noja(args, cwd, stdin="", variant="rel", timeout=20):
    """-> (exit status, stdout, stderr)"""
    cap = ["prlimit", "--as=6000000000"] if variant == "rel" else []
    p = subprocess.run(cap + [os.path.join(nj.build(variant), "noja")] + [nj.tobytes(a) for a in args], cwd=cwd, input=nj.tobytes(stdin), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout, env=nj.env(next(COUNT)))
    d = lambda b: b.decode("utf-8", "surrogateescape")
    return p.returncode, d(p.stdout), d(p.stderr)


def verdict(e, got, profile=None, calls=None, names=None, root=None):
    """outcome of the specification against what the tool did"""
    code, out, err = got
    if root:
        out, err = common.inside(out, root), common.inside(err, root)
    if profile:
        keep, prof = [], []
        for l in out.split("\n") if profile == "stdout" else []:
            (prof if re.search(r" - .* - \d+ calls - [\d.]+us$", l) else keep).append(l)
        if profile == "stdout":
            out = "\n".join(keep)
    if code not in (0, 255):
        return "the tool ended with status %d: %s" % (code, err[-1500:])
    if e["st"] == "done":
        if code != 0:
            return "expected exit status 0, got %d (%s)" % (code, err[:300])
        if err:
            return "unexpected text on the error stream: %r" % err[:300]
        if out != e["out"]:
            return "expected output %r, got %r" % (e["out"][:300], out[:300])
        return None
    if code != 255:
        return "the program ends with an error (%s), but the exit status is %d" % (e["msg"], code)
    if out != e["out"]:
        return "expected output %r, got %r" % (e["out"][:300], out[:300])
    m = re.match(r"(?:(\w+) )?Error: (.*?)\.\n(Stack trace:\n.*)$", err, re.S)
    if not m:
        return "no error message and trace on the error stream: %r" % err[:300]
    if e["cat"] != "any" and m.group(1) != e["cat"] or e["cat"] != "any" and e["msg"] and m.group(2) != e["msg"]:
        return "expected '%s Error: %s', got %r" % (e["cat"], e["msg"], err[:200])
    if e["tr"]:
        return common.compare_trace(e["tr"], {"bt": m.group(3)}, names)


PROGS = {"prog": "fun f(x) return [x]; print('hi\\n'); f(1); f(2); f('\u00e9'); print(toString(f(3)), '\\n');",
         "-bad": "x = 1;\nprint('before\\n');\n none.a.b;",
         "syn": "print('never');\nx = = 2;",
         "asm": 'PUSHINT 3; PUSHSTR "a\\n"; PUSHVAR "print"; CALL 2, 1; POP 1; EXIT;'}
INASM = 'PUSHSTR "in asm"; PUSHVAR "print"; CALL 1, 1; POP 1; PUSHVAR "nosuch"; EXIT;'
INLINE = "print('in\u00e9\\n', 3); return 4;"


@check("C34")
def cli(ctx):
    r = ctx.rng
    base = os.path.join(nj.workdir(), "cli")
    os.makedirs(base)
    nj.build("rel"); nj.build("asan")

    # 1. command lines over every option, chosen by TLC
    toks = ["asm", INASM, "-h", "--help", "-i", "--inline", "-a", "--assembly", "-p", "--profile", "-o", "--output", "-H", "--heap", "--diagram-ast", "prog", "-bad", "syn", "out.txt", "2000000", "0", INLINE, "-x", "nofile", "", "2147483648", "4294967296", "4295067296", "2147483647", "9223372036854775808", "18446744073711551616", "00", "0100000"]
    al = spec.Alphabet(toks + ["Missing file path byte count after option Invalid heap size"])
    doc = {"toks": [{"t": al.to(t), "dash": t[:1] == "-", "num": min(int(t), 2**31 - 1) * (int(t) < 2**31) if t.isdigit() else 0} for t in toks], "max": 2}
    ways = []
    some_ = [toks.index(t) for t in ("asm", INASM, INLINE, "-a", "-i", "prog")]
    ends = lambda *xs: [toks.index(t) for t in xs]
    gways = []
    grids = [(ends("-p", "--diagram-ast", "-i", "-a", "-h", INLINE), 4), (ends("-p", "--diagram-ast", "-a", "-o", "out.txt", "prog"), 4), (ends("-p", "-o", "out.txt", "-H", "2000000", "prog"), 5), (ends("-H", "--heap", "2147483648", "4294967296", "4295067296", "0100000", "9223372036854775808", "18446744073711551616", "00", "prog"), 3)]
    for pick, n in [(range(len(toks)), 2)] + [(some_, 3)] + grids + [(r.sample(range(len(toks)), 9), ctx.n(3, 4)), (some_ + r.sample(range(len(toks)), 3), ctx.n(3, 4))]:
        grid = (pick, n) in grids
        pick = sorted(set(pick))
        d = dict(doc, toks=[doc["toks"][i] for i in pick], max=n)
        fi = os.path.join(base, "in.json"); fo = os.path.join(base, "out.ndjson")
        json.dump(d, open(fi, "w", encoding="utf-8"), ensure_ascii=False)
        out, ok = spec.tlc("NojaCli", None, {"IN": fi, "OUT": fo}, tag="cli")
        rows = spec.read_out(fo)
        if not ok or len(rows) != sum(len(pick) ** k for k in range(n + 1)):
            raise spec.SpecError("TLC: %d command lines\n%s" % (len(rows), spec.explain(out)))
        for x in rows:
            x = al.back_all(x)
            if grid and (len(x["argv"]) < 3 or len(set(x["argv"])) < len(x["argv"]) - (n > 4) or x["input"] and x["argv"].index(x["input"]) < len(x["argv"]) - 1):
                continue
            x["args"] = [toks[pick[i - 1]] for i in x["argv"]]
            if x["input"]:
                x["text"] = toks[pick[x["input"] - 1]]
            (gways if grid else ways).append(x)
    first = sum(len(toks) ** k for k in range(3)) + sum(6 ** k for k in range(4))
    ways = ways[:first] + (ways[first:] if not ctx.quick else r.sample(ways[first:], min(500, len(ways[first:]))))
    must = [x for x in gways if len(x["args"]) < 5 or not ctx.quick]
    ways += must + some(r, [x for x in gways if len(x["args"]) > 4 and ctx.quick], 400)
    srcs = sorted(set(PROGS.values()) | set(toks))
    outs = {s["src"]: e for s, e in spec.explore([{"src": x} for x in srcs], module="NojaObs", default_max=2000)}
    aouts = {s["src"]: e for s, e in spec.explore([{"src": x, "asm": True} for x in srcs], default_max=2000)}
    missing = {"st": "err", "cat": "any", "msg": "", "out": "", "tr": [], "rets": None}

    def one(w, k):
        d = os.path.join(base, "d%d" % k)
        os.makedirs(d)
        for n, t in PROGS.items():
            with open(os.path.join(d, n), "w", encoding="utf-8") as f:
                f.write(t)
        try:
            got = noja(w["args"], d)
            code, out, err = got
            made = {n: open(os.path.join(d, n), encoding="utf-8").read() for n in os.listdir(d) if n not in PROGS}
            touched = [n for n, t in PROGS.items() if not os.path.exists(os.path.join(d, n)) or open(os.path.join(d, n), encoding="utf-8").read() != t]
        except subprocess.TimeoutExpired:
            return "the tool does not end"
        finally:
            shutil.rmtree(d, ignore_errors=True)
        outfile = w["out"] if w["act"] in ("diagram", "run", "assembly") else ""
        if [n for n in touched if n != outfile] or [n for n in made if n != outfile]:
            return "files changed: %s %s" % (touched, sorted(made))
        if w["act"] == "help":
            bad = [o for o in OPTIONS if o not in out]
            return None if code == 0 and not bad and not err else "expected the help text on the output, got status %d, %r" % (code, out[:200])
        if w["act"] in ("usage", "noinput"):
            m = w["msg"] if w["act"] == "usage" else "Error: No input file"
            return None if code == 255 and err.startswith(m + "\n") and "Usage:" in err and not out else "expected %r on the error stream and status 255, got %d %r %r" % (m, code, err[:200], out[:100])
        text = w["text"] if w["inline"] else PROGS.get(w["text"])
        if w["act"] == "diagram":
            if text is None or outs[text]["cat"] in ("Syntax", "Semantic"):
                if text is not None and outs[text]["cat"] != "Syntax":
                    return None
                return None if code == 255 and not out and re.match(r"(\w+ )?Error: ", err) else "expected an error message and status 255, got %d %r %r" % (code, err[:200], out[:100])
            t = made.get(outfile) if outfile else out
            if outfile in PROGS and outfile:
                return None
            return None if code == 0 and not err and t and re.match(r"\s*(di)?graph\b", t) and not (outfile and out) else "expected a diagram on %s, got status %d %r %r" % (outfile or "the output", code, (t or "")[:100], err[:200])
        if 0 <= w["heap"] < 20000 or (outfile and outfile in PROGS):
            return None
        e = missing if text is None else outs[text] if w["act"] == "run" else aouts[text]
        if e["st"] not in ("done", "err"):
            return None if code in (0, 255) and (code == 0) == (err == "") else "status %d with %r" % (code, err[:200])
        bad = verdict(e, got, "stdout" if w["profile"] and not w["out"] else None, names=None if w["inline"] else {2: w["text"]})
        if bad:
            return bad
        if w["profile"] and e["st"] == "done" and w["act"] == "run":
            p = out if not w["out"] else made.get(w["out"], "")
            want = [(n or "none", c) for n, _, c in e["made"] if c]
            src = r"\(unnamed\)" if w["inline"] else "(?:/.*/)?" + re.escape(w["text"])
            have = [(m.group(1), int(m.group(2))) for m in re.finditer(r"^ *(\S+) - %s - (\d+) calls - [\d.]+us$" % src, p, re.M)]
            if sorted(want) != sorted(have):
                return "expected the profile %s, got %s" % (want, have)
    with ThreadPoolExecutor(8) as ex:
        for w, bad in zip(ways, ex.map(one, ways, range(len(ways)))):
            ctx.count["run"] += 1
            ctx.count["compared"] += 1
            ctx.kinds["command line: " + w["act"]] += 1
            ctx.distinct.add(tuple(w["args"]))
            if bad:
                ctx.violation("noja %s: %s" % (" ".join(map(repr, w["args"])), bad), {"args": w["args"], "files": PROGS})
    for w in ways[5:600:200]:
        ctx.sample({"args": w["args"], "act": w["act"]})
    if ctx.violations:
        return

    # 2. programs of all kinds, from files and inline, with input
    S = [dict(p, stdin=r.choice(["", "a\n\u00e9\nlast"])) for p in progs(ctx, ctx.n(50)) + progs(ctx, ctx.n(40), err=.08)]
    S += [script_world(r) for _ in range(ctx.n(25))] + [file_program(r, world(r)) for _ in range(ctx.n(15))]
    S += [{"src": x, "stdin": "one\n\ntw\u00f6"} for x in ("return input(), input(), input();", "print(input(), '|', input(), '|', input(), '|', input());", "x = input(); error(x);", "", " ", "# c", "print('a', 1, [2]); x = ;",
                                                         "fun f(n) {\n if n == 0: return none.z.z;\n\n return f(n - 1);\n}\nf(3);", "fun f() return f(); f();", "while true: { break; } print('done');", "return 1, 2, 3, 4, 5, 6, 7, 8;",
                                                         "return [1].x.y.z;", "break;", "print('\\n\\n');", "assert(1 == 2);")]
    pairs = [(s, e) for s, e in spec.explore(S) if e["st"] in ("done", "err")]

    def two(s, e, k):
        fs = dict(s.get("fs") or {"files": {}, "cwd": "", "main": None})
        inline = not fs.get("main")
        if not s.get("fs") and k % 2:
            inline, fs["main"] = False, "m.noja"
        root = common.plant_tree(fs, s["src"])
        cwd = os.path.join(root, fs["cwd"])
        src = s["src"].replace("/w/", root + "/")
        try:
            args = ["-i", src] if inline else [os.path.relpath(os.path.join(root, fs["main"]), cwd)]
            got = noja(args, cwd, s.get("stdin", ""), "asan" if k % 4 < 2 else "rel")
            names = {**names_of(fs), 2: "(unnamed)" if inline else fs["main"]}
            bad = verdict(e, got, names=names, root=root)
            if not bad and e.get("tree") is not None:
                t = common.harvest(root)
                bad = None if set(t) == set(e["tree"]) and all(v in ("?", "script") or v == t[p] for p, v in e["tree"].items()) else "the files differ: %s instead of %s" % (t, e["tree"])
            return bad
        except subprocess.TimeoutExpired:
            return "the tool does not end"
        finally:
            shutil.rmtree(os.path.dirname(root), ignore_errors=True)
    pairs = [(s, e) for s, e in pairs if "\x00" not in s["src"]]
    with ThreadPoolExecutor(8) as ex:
        for (s, e), bad in zip(pairs, ex.map(two, *zip(*pairs), range(len(pairs)))):
            ctx.count["run"] += 1
            ctx.count["compared"] += 1
            ctx.kinds["program: " + (e["st"] if e["st"] == "done" else "error " + e["cat"])] += 1
            ctx.distinct.add(s["src"])
            if bad:
                ctx.violation("%s\n%s" % (bad, s["src"]), {"src": s["src"], "stdin": s.get("stdin", ""), "fs": common.shown(s.get("fs")), "expected": {k: e[k] for k in ("st", "cat", "msg", "out")}})

    # 3. the heap size given is the one used: a program that needs about 3 MB
    big = "L = []; i = 0; while i < 60000: { L[i] = i; i = i + 1; } print(count(L)); return L[59999];"
    for args, fine in ([], False), (["-H", "900000"], False), (["-H", "20000000"], True), (["--heap", "12000000"], True), (["-H", "30000000", "--heap", "900000"], False):
        code, out, err = noja(args + ["-i", big], base)
        ctx.count["compared"] += 1
        if (code, out, err) != (0, "60000", "") if fine else (code, out) != (255, "") or not err.startswith("Internal Error: Out of heap.\n"):
            ctx.violation("noja %s: a program that needs 3 MB ended with status %d, %r %r" % (args, code, out[:50], err[:200]), {"args": args, "src": big})

    # 4. interruption
    for sig, first in [(g, k == 0) for g in (signal.SIGINT, signal.SIGTERM) for k in range(ctx.n(6, 20))]:
        for src in ("print('up');\ni = 0;\nwhile true: i = 0;", "fun f() {\n while true: x = [1];\n}\nprint('up');\nf();", "fun a() return a2();\nfun a2() { print('up'); while true: { t = {k: [1]}; } }\na();"):
            opts = [] if first else r.sample([["-p"], ["-o", os.path.join(base, "prof.txt")], ["-H", "3000000"], ["-i"], ["--profile"]], r.randint(1, 4)) + r.choice([[], [["-p"], ["-o", os.path.join(base, "prof2.txt")]]])
            p = subprocess.Popen(["stdbuf", "-o0", os.path.join(nj.build("rel"), "noja")] + sum(opts, []) + ["-i", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=nj.env(next(COUNT)))
            try:
                assert os.read(p.stdout.fileno(), 2)
                time.sleep(.05)
                p.send_signal(sig)
                out, err = p.communicate(timeout=15)
                bad = None if p.returncode == 255 and err.startswith(b"Runtime Error: Forced abortion.\nStack trace:\n") else "status %s, %r" % (p.returncode, err[:200])
            except subprocess.TimeoutExpired:
                p.kill(); p.communicate()
                bad = "the tool keeps running"
            ctx.count["compared"] += 1
            ctx.kinds["interrupted"] += 1
            if bad:
                ctx.violation("signal %d, options %s: %s\n%s" % (sig, sum(opts, []), bad, src), {"src": src, "args": sum(opts, []), "signal": int(sig)})
