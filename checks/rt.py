"""The runtime as its host sees it: garbage collection, memory limits,
callbacks and interruption, independence of runs, profiling."""
import os, re
from lib import nj, spec, common
from lib.common import conform, frames, judge, thin, compare_all
from . import check
from .util import tpl, some, progs, DECL

# programs that hold references in every kind of place while they allocate
HOLD = [
    # operands under construction
    "fun g(n) { t = [n, 'x']; return [n, t]; } return [g(1), g(<v>), {a: g(3), b: g(<v>)}], [[g(5)], g(6)];",
    "fun g(n) return 'v', [n], {k: n}; a, b, c = g(<v>); d = [g(<v>)]; return a, b, c, d;",
    "fun s(x) return string.cat(x, 'e\u00e9'); x = <v>; t = 'a'; i = 0; while i < 4: { t = string.cat(s(t), s('b')); i = i + 1; } return [t, x];",
    # arguments and defaults
    "fun f(a=[1], b={k: [2]}, c: List=[[3]]) return [a, b, c]; return f(), f(<v>), f([<v>], none, [0]);",
    "fun f(a, b, c) { q = [c, b, a]; fun h() return q; return h; } return f([<v>], {z: <v>}, 'c')();",
    # closures: state that only a scope reaches
    "fun mk(z) { box = [z]; fun get() return box[0]; fun put(v) { box[0] = [v, box[0]]; return none; } return get, put; } g, p = mk(<v>); p(1); p([2]); g2, p2 = mk('o'); p2(3); return g(), g2();",
    "fun mk(n) { fun in() { fun inn() return [n, K]; return inn; } return in; } K = [<v>]; A = mk([1]); B = A(); K = [9, <v>]; return A()(), B();",
    "L = []; i = 0; while i < 4: { fun mk(v) { fun f() return [v, i]; return f; } L[i] = mk([i, <v>]); i = i + 1; } return [L[0](), L[1](), L[3]()];",
    # containers: growth, cycles, sharing
    "L = []; i = 0; while i < 9: { L[i] = [i, <v>]; i = i + 1; } a = L; a[0] = L; return L[3], count(L), a == none, L;",
    "M = {}; i = 0; while i < 9: { M[string.cat('k', toString(i))] = {i: i, v: <v>}; M[i] = M; i = i + 1; } return M['k3'], count(M), keysof(M)[4];",
    "M = {}; M.self = M; M.kids = [M, {up: M}]; M.v = <v>; x = M; M = none; return x.kids[1].up.self.v, x;",
    "B = buffer.new(6); S = buffer.sliceUp(B, 2, 3); B[2] = 65; i = 0; while i < 4: { T = buffer.sliceUp(S, 0, 2); T[1] = 66 + i; B = [S, <v>]; i = i + 1; } return S, T, B;",
    "s = buffer.toString(buffer.fromString('a\u00e9\U0001F600')); t = string.slice(s, 0, 3); u = string.trim(string.cat(' ', t, ' ')); return [s, t, u, <v>];",
    # iterators, types, methods
    "r = []; it = makeIterator([[1], 'a', <v>]); x = it->next(); while x != none: { r[count(r)] = x; x = it->next(); } return r;",
    "T = ?int | String | [List, any]; fun f(x: T, y: ?(Map | T)) return [x, y]; return f(1, {}), f('s', none), f([[1], <v>], 2), [T];",
    "o = {n: [<v>], get: none}; fun get(self, k) { self.n[count(self.n)] = k; return self; } o.get = get; return o->get([1])->get('b')->get({c: 3}), o;",
    # types made of every pair of kinds of types
    "T = <t> | <t>; U = [T, <t>]; V = {a: T, b: ?<t>}; i = 0; while i < 3: { x = [i]; i = i + 1; } fun f(p: T) return p; return istypeof(T, 1), istypeof(T, ['a']), istypeof(T, {a: 1}), istypeof(T, none), istypeof(T, 'a'), istypeof(U, [[1], 2]), istypeof(V, {a: 1}), [T, U, V];",
    "fun mk(a, b) return a | b; T = mk(<t>, mk(<t>, ?<t>)); i = 0; while i < 2: { x = {i: i}; i = i + 1; } return istypeof(T, [1]), istypeof(T, {a: 'b'}), T;",
    # errors raised while things are being built
    "fun f(x) { if x == 3: return none.y.z; return [x, f(x + 1)]; } return [1, [2, f(0)], <v>];",
    "fun f(x) { t = [x]; return [t, <v>] + 1; } return [[1], f(2)];",
    "error(string.cat('bad ', toString([[<v>], {a: 'b'}])));",
    "print([[1, <v>], {k: [2]}], 'x', {a: none}); print(toString({m: [1, 2.5]}), '\\n'); return toString([[<v>]]);",
]
HT = ["[int]", "[String]", "{a: int}", "{a: String}", "?bool", "(?int)", "(int | float)", "(?[int])", "[]", "None", "int"]
HV = ["7", "'s'", "2.5", "[]", "none", "9223372036854775807"]


def steps_of(js, variant="asan"):
    return nj.run(js, variant)


@check("C25")
def transparent(ctx):
    """Collections at every point TLC chooses, and under many other schedules."""
    r = ctx.rng
    # 1. schedules chosen by TLC in NojaGC: all single collection points of small
    #    programs, all pairs for tiny ones
    hold = [{"src": re.sub("<t>", lambda m: r.choice(HT), t.replace("<v>", r.choice(HV)))} for t in HOLD]
    small = [dict(s, gcs=1, max=170) for s in some(r, hold, ctx.n(6, 21))]
    tiny = ["fun f(x) return [x]; fun mk(z) { q = [z]; fun g() return [q, z]; return g; } return [f(1)], mk('u')();",
            "L = [[1], {a: 'b'}]; L[2] = L; return L, [L[0]];",
            "fun f(a=[2]) { fun g() return a; return g; } return f()();",
            "M = {k: [1]}; x = M.k; M = none; return [x], {y: x};"]
    small += [{"src": t, "gcs": 2} for t in some(r, tiny, ctx.n(1, 4))]
    seen = {}
    for s, e in spec.explore(small, module="NojaGC", default_max=170):
        at = e.pop("at")
        k = seen.setdefault(s["src"], (s, e, []))
        if e["st"] in ("unsup", "long"):
            continue
        if {x: e[x] for x in ("st", "cat", "msg", "out", "rets")} != {x: k[1][x] for x in ("st", "cat", "msg", "out", "rets")}:
            raise spec.SpecError("the specified collector changes the outcome of %s" % s["src"])
        k[2].append(at)
    for s, e, ats in seen.values():
        if e["st"] in ("unsup", "long"):
            ctx.count["noclaim"] += 1
            continue
        ctx.count["tlc_schedules"] += len(ats)
        if len(ats) > ctx.n(250, 4000):
            ats = r.sample(ats, ctx.n(250, 4000))
        compare_all(ctx, [(s, e)], schedules=[{"gc": "at:" + ",".join(str(k + 1) for k in a)} if a else {} for a in ats])
    # 2. larger programs: everywhere, periodically, at random, and by running in heaps of many sizes
    S = [tpl(t, **{k: x for k, x in (("v", some(r, HV, 2 if ctx.quick else 6)), ("t", some(r, HT, 3 if ctx.quick else 5))) if "<%s>" % k in t}) for t in HOLD]
    S += [{"src": p["src"]} for p in progs(ctx, ctx.n(60), closures=.9, loops=.8, depth=3, maxst=12)]
    S += [{"src": p["src"]} for p in progs(ctx, ctx.n(20), err=.05, closures=.9)]
    S += [{"src": crowd(r)} for _ in range(ctx.n(8, 60))]
    conform(ctx, S, schedules=[{"gc": "all"}, {"gc": "every:2"}, {"gc": "every:3"},
                               lambda s, e: {"gc": "rnd:%d:%d" % (r.randint(1, 10**6), r.choice([2, 3, 5, 9]))},
                               lambda s, e: {"gc": "every:%d" % r.randint(4, 30)},
                               lambda s, e: {"gc": "at:%d" % r.randint(1, 60)}])
    pressure(ctx, S, ctx.n(2, 6))
    ctx.extra["tlc_schedules"] = ctx.count["tlc_schedules"]


def crowd(r):
    """Calls within calls, each of which holds as many operands as it may while
    the next one runs: everything they hold is reachable only from there."""
    k = [0]

    def fresh():
        k[0] += 1
        return r.choice(["[n, %d]", "{k%d: n}", "string.cat('s%d', toString(n))", "[['q', n], %d]", "[[], %d]", "%d"]) % k[0]

    def nest(d, hole):
        e = hole
        for _ in range(d):
            e = r.choice(["[%s, %s]" % (fresh(), e), "[%s, %s, %s]" % (fresh(), e, fresh()), "{a: %s, b: %s}" % (fresh(), e), "h(%s, %s)" % (e, fresh()),
                          "[%s, h(%s, 1)]" % (fresh(), e)])
        return e
    inner = r.choice(["i = 0; while i < 3: { t = [i, [i], 'g']; i = i + 1; } return [i];", "return [[[1]], {u: [n]}];", "fun g() return [n]; return [g(), g()];"])
    return "fun h(x, y) { t = [x]; return {p: t, q: y}; } fun f(n) { if n <= 0: { %s } return %s; } return f(%d);" % (
        inner, nest(r.choice([3, 4, 4, 5]), "f(n - 1)"), r.choice([6, 8, 9, 10, 10, 11]))


def pressure(ctx, S, k):
    """Natural collections: heaps small enough that they happen often.  A run may
    only end as specified or by reporting that the heap is exhausted."""
    r = ctx.rng
    pairs = [(s, e) for s, e in spec.explore([thin(ctx, s) for s in S]) if e["st"] in ("done", "err")]
    jobs, meta = [], []
    for s, e in pairs:
        for _ in range(k):
            h = r.choice([5000, 6000, 7000, 8000, 9000, 10000, 12000, 15000]) + r.randrange(0, 900)
            jobs.append({"src": s["src"], "stdin": s.get("stdin", ""), "opts": {"heap": h}})
            meta.append((s, e))
    for (s, e), j, a in zip(meta, jobs, nj.run(jobs)):
        ctx.count["compared"] += 1
        ctx.distinct.add(hash(s["src"]))
        if a["st"] in ("err", "boot") and a.get("etype", "Internal") == "Internal" and a.get("msg") == "Out of heap":
            ctx.kinds["out of heap"] += 1
            continue
        w = judge(e, a)
        if w:
            ctx.violation("with a heap of %d bytes: %s\n%s" % (j["opts"]["heap"], w, s["src"][:1200]),
                          {"src": s["src"], "opts": j["opts"], "expected": e, "observed": {x: a.get(x) for x in ("st", "etype", "msg", "out", "rets", "why", "log")}})


# ------------------------------------------------------------------ reclamation
GARB = ["t = [1, [2, 'x']];", "t = {a: [i], b: {c: 'd'}};", "fun t(x) { y = [x]; return y; } t([i]);", "fun mk(z) { fun in() return z; return in; } t = mk([i])();",
        "t = string.cat('ab', toString(i));", "t = buffer.sliceUp(buffer.new(9), 1, 3);", "t = []; t[0] = t; t = none;", "t = {}; t.u = {v: t}; t = none;",
        "fun f(n) { w = [n]; w[1] = w; if n > 0: return f(n - 1); return w; } t = f(4);", "it = makeIterator([i, 2, 3]); it->next(); t = [it->next()]; it = none;",
        "L[0] = [i, [i]];", "M.k = {v: [i]};", "t = ?int | String; fun u(x: t) return x; u('s');", "t = (i < 2 and [1] == none) or true;",
        "a, b, c = [i], 's';", "[[i], 'drop'];", "fun d() return [1], {}, 'z'; d();", "t = keysof({a: i, b: [2]})[1];", "t = [i]; t = [t, t]; t = [t, t]; t = 0;",
        "x0 = [i]; fun setter() { x0 = [[i]]; x1 = [x0]; return x1; } setter(); x0 = 0;", "fun rec(n) { if n == 0: return [[]]; return [rec(n - 1)]; } t = count(rec(3)); "]
KEEP = ["", "K = [[1], [2], ['x']];", "fun mkk(z) { fun in() return z; return in; } K = [mkk([1]), mkk('a')];", "K = {a: {b: {c: [1, 2]}}}; K.self = K;"]


@check("C26")
def reclaim(ctx):
    r = ctx.rng
    # 1. what is live at the marks (after each print) stays within the bounds TLC computes from the reachable objects
    S = []
    for _ in range(ctx.n(16, 120)):
        g = " ".join(r.sample(GARB, r.choice([1, 1, 2])))
        n = r.choice([8, 12])
        S.append({"src": "L = [0]; M = {k: 0}; %s i = 0; print('.'); while i < %d: { %s i = i + 1; if i %% %d == 0: print('.'); } print('.'); %s print('.'); return i;"
                  % (r.choice(KEEP), n, g, r.choice([2, 3, 7]), r.choice(["t = none;", "K = none;", "i = [i];", ""])), "live": True, "max": 4000})
    # the garbage of calls that ended long ago
    S += [{"src": "fun w(n) { a = [n]; b = {k: a}; fun c() return [a, b]; a[1] = c; return %s; } i = 0; while i < %d: { %s i = i + 1; if i %% 4 == 0: print('.'); } print('.'); return i;" %
           (x, n, u), "live": True, "max": 4000} for x, u, n in [("c", "w(i);", 12), ("a", "t = w(i);", 10), ("n", "w(i); w(i);", 8), ("c()", "t = w(i); t = none;", 8)]]
    ex = [(s, e) for s, e in spec.explore(S, module="NojaObs", default_max=4000) if e["st"] == "done"]
    base = nj.run1("", final=1)["final"]["after"]
    got = nj.run([{"src": s["src"], "opts": {"mark": 1, "final": 1}} for s, e in ex])
    for (s, e), a in zip(ex, got):
        ctx.count["run"] += 1
        ctx.count["compared"] += 1
        ctx.distinct.add(hash(s["src"]))
        w = judge(e, a)
        if not w and len(a["marks"]) != len(e["live"]) - 1:
            raise spec.SpecError("marks differ: %s / %s for %s" % (a["marks"], e["live"], s["src"]))
        if not w:
            for i, (m, (lo, hi, _)) in enumerate(zip(a["marks"], e["live"][1:])):
                ctx.kinds["marks"] += 1
                if not lo <= m - base <= hi + 6:
                    w = "at mark %d the heap holds %d objects besides the library, the program can reach between %d and %d" % (i, m - base, lo, hi)
                    break
        if not w and a["final"]["after"] != base:
            w = "%d objects survive the end of the program" % (a["final"]["after"] - base)
        if w:
            ctx.violation("%s\n%s" % (w, s["src"]), {"src": s["src"], "opts": {"mark": 1, "final": 1}, "expected": {"live": e["live"], "rets": e["rets"]},
                                                     "observed": {k: a.get(k) for k in ("st", "msg", "marks", "final", "why")}})
    for s, e in ex[:3]:
        ctx.sample({"src": s["src"][:300], "live": e["live"][:4]})
    # 2. nothing of any completed program survives it
    P = progs(ctx, ctx.n(120), closures=.9, loops=.7) + [tpl(t, v=some(r, HV, 1)) for t in HOLD]
    use = [(s, e) for s, e in spec.explore([thin(ctx, p) for p in P]) if e["st"] == "done"]
    for (s, e), a in zip(use, nj.run([{"src": s["src"], "opts": {"final": 1}} for s, e in use])):
        ctx.count["compared"] += 1
        ctx.distinct.add(hash(s["src"]))
        w = judge(e, a)
        if not w and a["final"]["after"] != base:
            w = "%d objects survive the end of the program" % (a["final"]["after"] - base)
        if w:
            ctx.violation("%s\n%s" % (w, s["src"]), {"src": s["src"], "opts": {"final": 1}, "observed": a})
    use2 = [(s, e) for s, e in use if not s.get("fs")]
    for (s, e), a in zip(use2, nj.run([{"src": s["src"], "opts": {"mem": 1}} for s, e in use2])):
        ctx.count["compared"] += 1
        if a.get("mem"):
            ctx.violation("a completed program leaves %d bytes of host memory allocated\n%s" % (a["mem"], s["src"]), {"src": s["src"], "opts": {"mem": 1}, "observed": a})
    # 3. programs that make far more garbage than the heap holds, but whose live part (as TLC
    #    shows for a few rounds) is small, complete
    jobs, meta = [], []
    for g in GARB if not ctx.quick else some(r, GARB, 12):
        for k in (some(r, KEEP, 1) if ctx.quick else KEEP):
            t = "L = [0]; M = {k: 0}; %s i = 0; while i < %%d: { %s i = i + 1; if i %%%% 4 == 0: print('.'); } print('.'); return i;" % (k, g)
            meta.append(t)
    few = spec.explore([{"src": t % 12, "live": True, "max": 5000} for t in meta], module="NojaObs", default_max=5000)
    rounds = ctx.n(1200, 20000)
    ok = [(t, s, e) for t, (s, e) in zip(meta, few) if e["st"] == "done" and max(h for _, h, _ in e["live"]) < 160
          and abs(e["live"][-1][1] - e["live"][-2][1]) < 40]
    heaps = [40000, 60000]
    for t, s, e in ok:
        for h in heaps:
            jobs.append(({"src": t % rounds, "opts": {"heap": h, "max": 50000000, "tmo": 60}}, e))
    for (j, e), a in zip(jobs, nj.run([j for j, _ in jobs], "rel")):
        ctx.count["compared"] += 1
        if a["st"] != "ok" or a["rets"] != [["i", rounds]]:
            ctx.violation("a program whose live part is at most %d objects does not complete in a heap of %d bytes: %s %s\n%s" %
                          (max(h for _, h, _ in e["live"]), j["opts"]["heap"], a["st"], a.get("msg", a.get("why")), j["src"]), {"src": j["src"], "opts": j["opts"], "observed": a})


    # 4. what the host allocated for a completed program does not depend on how long it ran
    use = ["type();", "type(1, 2);", "istypeof(int);", "fun f(a, b) return [a]; f(); f(1, 2, 3);", "fun f(a, b) {} f(1); f(1, 2, 3);", "x, y = type();", "string.trim('a', 2);", "print2 = print; keysof();", "t = math.floor(1.5, 2);", "fun f(n) { if n == 0: return 1; return f(n - 1, 2); } f(3);"] + GARB
    jobs = [{"src": "L = [0]; M = {k: 0}; i = 0; while i < %d: { %s i = i + 1; } return i;" % (k, u), "opts": {"mem": 1, "heap": 60000}} for u in use for k in (40, 640)]
    res = nj.run(jobs)
    for j, a, b in zip(jobs[::2], res[::2], res[1::2]):
        ctx.count["compared"] += 1
        if a["st"] == "ok" == b["st"]:
            ctx.kinds["host memory"] += 1
            if b["mem"] > a["mem"] + 200:
                ctx.violation("a completed program leaves %d bytes of host memory allocated after 40 rounds, %d after 640\n%s" % (a["mem"], b["mem"], j["src"]), {"src": j["src"], "opts": j["opts"], "observed": [a["mem"], b["mem"]]})
        elif (a["st"], a.get("msg")) != (b["st"], b.get("msg")):
            ctx.violation("a program of little reachable memory does not complete: %s %s\n%s" % (b["st"], b.get("msg", b.get("why")), j["src"]), {"src": j["src"], "opts": j["opts"], "observed": b})


# ------------------------------------------------------------------ host control
CTRL = ["fun f(x) { print('<a>'); return g(x) + 1; } fun g(y) { print('b', y);\n return y * 2; } i = 0;\nwhile i < <n>: { print(f(i));\n i = i + 1; } return i;",
        "fun f(n) { if n == 0: { print('<a>'); return 0; }\n r = f(n - 1);\n print(n); return r + n; }\nprint('go'); x = f(<n>);\n return x, f(1);",
        "L = []; do { L[count(L)] = count(L); print(L); } while count(L) < <n>; fun m(self) { print('<a>');\n return self; } o = {m: m}; o->m()->m();",
        "fun mk(z) { fun in(k) { print('<a>', z); z = k; return in2; }\n fun in2() return in(0); return in; } mk(1)(2)()(); print(<n>); return none.x.y;",
        "fun d(x=h(), y: int=<n>) { print(x); return y; } fun h() { print('<a>'); return 5; }\n d(); d(1); d(1, 2); d('q');\n d(1, 'bad');",
        "fun f() { print('<a>'); return [1] < 2; }\nprint('s');\nfun g() return f();\nwhile true: { g();\n }",
        "print('<a>'); a = [g(1), g(<n>)];\nfun g(x) return x;",
        # the first instruction of the program or of a function is the one that fails
        "nosuch<n>;", "print('<a>');\nfun f() nosuch<n>;\nf();", "fun f() {\n nosuch();\n}\nfun g(x) {\n f(); }\nprint('<a>');\ng(<n>);", "fun f() return nosuch, <n>;\nprint('<a>');\n\nx = [f()];"]


def control_src(ctx, k):
    r = ctx.rng
    S = [tpl(t, a=[r.choice("pqr")], n=[str(r.randint(1, 3))]) for t in CTRL]
    S += [{"src": p["src"]} for p in progs(ctx, k, prints=1.2, closures=1.0, err=.01, maxst=8, depth=2)]
    return S


def chain_of(bt):
    return [list(x) for x in frames(bt)][1:]


@check("C28")
def control(ctx):
    """Stop every program between every two instructions: what the host finds there
    is a state of the specified run, and the states come in the specified order."""
    r = ctx.rng
    S = control_src(ctx, ctx.n(14, 150))
    ex = [(s, e) for s, e in spec.explore([thin(ctx, dict(s, max=700)) for s in S], module="NojaObs", default_max=700)
          if e["st"] in ("done", "err")]
    plain = nj.run([{"src": s["src"], "stdin": s.get("stdin", "")} for s, e in ex])
    for (s, e), p in zip(ex, plain):
        ctx.count["run"] += 1
        w = judge(e, p)
        if w:
            ctx.violation("%s\n%s" % (w, s["src"]), {"src": s["src"], "expected": e, "observed": p})
            continue
        n = p["steps"]
        if n < 1:
            ctx.violation("the host was never consulted\n%s" % s["src"], {"src": s["src"], "opts": {"abort": 1}, "expected": e, "observed": p})
            continue
        lim = ctx.n(260, 1500)
        at = list(range(1, n + 1)) if n <= lim else sorted(r.sample(range(1, n + 1), lim))
        jobs = [{"src": s["src"], "opts": {"abort": k}} for k in at] + [{"src": s["src"], "opts": {"intr": k}} for k in at[::3]] \
            + [{"src": s["src"], "opts": {"abort": k, "gc": "every:2", "heap": 1 << 20}} for k in at[::5]] \
            + [{"src": s["src"], "opts": {"abort": n + k}} for k in (1, 2, 1000)] + [{"src": s["src"], "opts": {"intr": n + 1}}]
        # in heaps that are exhausted again and again the host is consulted as often
        jobs += [{"src": s["src"], "opts": dict({"heap": r.choice([4600, 5000, 5500, 6000, 7000, 8000]) + r.randrange(0, 400)}, **o)} for o in ({}, {}, {}, {}) + tuple({"abort": r.randint(1, n)} for _ in range(8))]
        res = nj.run(jobs)
        outs = [""]
        for x in e["outs"]:
            outs.append(outs[-1] + x)
        want = []
        for ln, ch, top in e["hist"]:
            k = (outs[ln], tuple((("main", l) if c > 1 else (None, None)) for c, l in ch))
            if not want or want[-1] != k:
                want.append(k)
        order = {}
        bad = None
        seqs = {}
        for j, a in zip(jobs, res):
            ctx.count["compared"] += 1
            o = j["opts"]
            k = o.get("abort") or o.get("intr") or n + 1
            if o.get("heap", 1 << 20) < 20000 and a["st"] in ("err", "boot") and a.get("msg") == "Out of heap":
                continue
            if k > n or "intr" in o and k == n:
                bad = judge(e, a)
                if not bad and a["steps"] != n and "intr" not in o:
                    bad = "the host was consulted %d times instead of %d" % (a["steps"], n)
            elif a["st"] != "err" or a["etype"] != "Runtime" or a["msg"] != "Forced abortion":
                bad = "stopping at point %d: expected the error 'Forced abortion', got %s %s" % (k, a["st"], a.get("msg", a.get("why")))
            elif a["steps"] > k:
                bad = "the host asked to stop at point %d, but was consulted %d times" % (k, a["steps"])
            else:
                fr = chain_of(a["bt"])
                names = [x[0] for x in frames(a["bt"])]
                if any(x not in ("main",) and ":" not in x and x != "(no source)" for x in names) or any(x[1] is not None and x[0] != "main" for x in frames(a["bt"])):
                    continue          # inside the library
                st = (a["out"], tuple((("main", l) if l is not None else (None, None)) for _, l in fr))
                key = "heap" if o.get("heap", 1 << 20) < 20000 else "gc" if "gc" in o else "intr" if "intr" in o else "abort"
                seqs.setdefault(key, []).append((k, st))
            if bad:
                break
        if not bad:
            for key, q in seqs.items():
                # the distinct states found, in order, must be found in order in the specified run
                # (all of them, when every point was tried)
                d = []
                for k, st in sorted(q, key=lambda x: x[0]):
                    if not d or d[-1][1] != st:
                        d.append((k, st))
                i = 0
                for k, st in d:
                    while i < len(want) and want[i] != st:
                        i += 1
                    if i == len(want):
                        bad = "stopped at point %d the program is in no state of its specified run (in this order): output %r, callers %s" % (k, st[0][-60:], st[1])
                        j = {"src": s["src"], "opts": {"abort": k}}
                        break
                if not bad and key == "abort" and n <= lim and [x for _, x in d] != want:
                    miss = next(x for x in want if x not in [y for _, y in d]) if set(want) - {y for _, y in d} else want
                    bad = "no point of the run shows the specified state: output %r, callers %s" % (miss[0][-60:] if miss is not want else "", miss[1] if miss is not want else "order")
                    j = {"src": s["src"], "opts": {"abort": 1}}
                if bad:
                    break
        if bad:
            ctx.violation("%s\n%s" % (bad, s["src"]), {"src": s["src"], "opts": j["opts"], "expected": {"states": [list(x) for x in want][:50]}})
        else:
            ctx.distinct.add(hash(s["src"]))
            ctx.kinds["points stopped at"] += len(at)
            ctx.sample({"src": s["src"][:300], "states": len(want), "points": n})


# ------------------------------------------------------------------ isolation
@check("C29")
def isolated(ctx):
    """Runs do not influence each other: in a row in one process, in a row in one
    runtime, and one in the middle of another."""
    r = ctx.rng
    S = [tpl(t, v=some(r, HV, 1)) for t in HOLD] + progs(ctx, ctx.n(60), closures=.8, maxst=8) + progs(ctx, ctx.n(30), err=.06)
    S += [{"src": x} for x in ("print = 3; string = none; math = 1; toString = 2; return print;", "return print == none, toString(1);", "List = 1; int = 'x'; fun f(a: int) return a; return f(1);",
                               "fun f(a: int) return a; return f(1);", "x = ;", "while true: break", "fun f(x) return f(x); f(1);", "error('e');", "return x;", "x = 1; y = [x];", "return y;")]
    P = [(s, e) for s, e in spec.explore([thin(ctx, s) for s in S]) if e["st"] in ("done", "err")]
    ctx.count["run"] += len(P)

    def chk(s, e, a, how, case):
        ctx.count["compared"] += 1
        ctx.distinct.add(hash(s["src"]))
        w = judge(e, a)
        if w:
            ctx.violation("%s: %s\n%s" % (how, w, s["src"]), dict(case, expected=e, observed={k: a.get(k) for k in ("st", "etype", "msg", "out", "rets", "why", "log")}))
    # in a row in one process
    groups, meta = [], []
    for _ in range(ctx.n(60, 800)):
        g = [r.choice(P) for _ in range(r.randint(2, 6))]
        groups.append([{"src": s["src"], "stdin": s.get("stdin", ""), "opts": dict({"gc": r.choice(["nat", "every:3", "all"]), "heap": 1 << 20}, **({"chain": len(g)} if i == 0 else {}))}
                       for i, (s, e) in enumerate(g)])
        for j in groups[-1][:-1]:
            if r.random() < .3:       # some of the earlier ones are cut short
                j["opts"].update(r.choice([{"intr": r.randint(1, 30)}, {"abort": r.randint(1, 30)}, {"heap": r.choice([3000, 5000, 6000])}, {"stack": r.choice([1, 5, 12])}]))
                j["cut"] = 1
        meta.append(g)
    res = iter(nj.run(None, groups=[[{k: v for k, v in j.items() if k != "cut"} for j in js] for js in groups]))
    for g, js in zip(meta, groups):
        for i, (s, e) in enumerate(g):
            if js[i].get("cut"):
                ctx.kinds["cut short"] += 1
                next(res)
                continue
            chk(s, e, next(res), "after %d other runs in the process" % i, {"chain": [j["src"] for j in js]})
    # one in the middle of another
    groups, meta = [], []
    for _ in range(ctx.n(150, 2500)):
        a, b = r.choice(P), r.choice(P)
        groups.append([{"src": a[0]["src"], "opts": {"nest": r.randint(1, 60), "skip": 1, "heap": 1 << 20, "gc": r.choice(["nat", "every:2", "every:5"])}},
                       {"src": b[0]["src"], "opts": {"heap": 1 << 20, "gc": r.choice(["nat", "every:2"])}}])
        meta.append((a, b))
    for (a, b), js, x in zip(meta, groups, nj.run(None, groups=groups)):
        case = {"outer": js[0]["src"], "inner": js[1]["src"], "opts": js[0]["opts"]}
        chk(a[0], a[1], x, "with another run in the middle", case)
        if "inner" in x:
            chk(b[0], b[1], x["inner"], "inside another run", case)
            ctx.kinds["nested"] += 1
    # in a row in one runtime: each program starts with nothing but the library, however those before ended
    fit = [p for p in P if "\x01" not in p[0]["src"]]
    jobs, meta = [], []
    for _ in range(ctx.n(160, 2000)):
        g = [r.choice(fit) for _ in range(r.choice([1, 2, 3, 4, 4, 24]))] + [r.choice(fit)]
        o = {"seq": 1, "gc": r.choice(["nat", "every:3", "all"]), "heap": 1 << 20}
        if r.random() < .3:
            o["intr"] = r.randint(1, 40)
        jobs.append({"src": "\x01".join(s["src"] for s, _ in g), "opts": o})
        meta.append(g)
    for g, j, x in zip(meta, jobs, nj.run(jobs)):
        ctx.count["compared"] += 1
        w, cut = None, 0
        got = (x.get("seq") or []) + [x]
        if len(got) != len(g):
            w = "of %d programs run in a row the %dth ended with %s" % (len(g), len(got), x.get("msg", x.get("why")))
        for i, ((s, e), q) in enumerate(zip(g, got)):
            if w:
                break
            if "intr" in j["opts"] and not cut and q.get("msg") == "Forced abortion" and q.get("st") == "err":
                cut = 1        # one request stops one program
                ctx.kinds["interrupted, runtime used again"] += i + 1 < len(g)
                continue
            w = judge(e, q, lines=True)
            if w:
                w = "program %d of %d in one runtime: %s\n%s" % (i + 1, len(g), w, s["src"])
        if w:
            ctx.violation(w[:1500], {"src": j["src"], "opts": j["opts"], "observed": {k: x.get(k) for k in ("st", "etype", "msg", "out", "rets", "seq", "why", "log")}})
    # in a row in one runtime whose stack is too small for some of them
    S = [tpl("fun f(n) { if n == 0: return [1, 2]; return %sf(n - 1)%s; } return f(<n>);" % ("1 + (" * w, ")" * w), n=["0", "1", "2", "4"]) for w in (1, 4, 8)]
    S += [tpl("return <a>;", a=["1 + (" * w + "1" + ")" * w for w in (2, 5, 8, 10, 12, 13)]), tpl("fun f(a, b, c, d) return [a, [b, [c, [d]]]]; return [0, f(1, 2, <x>, 4)], f(f(1, 2), 3, [4, f(5, 6, <x>)]);", x=["none", "[1, [2, [3, [4, 5]]]]"])]
    S += progs(ctx, ctx.n(25), closures=1, maxst=6)
    Q = [(s, e) for s, e in spec.explore([thin(ctx, dict(s, max=1500)) for s in S], module="NojaObs", default_max=1500) if e["st"] in ("done", "err") and not e["lib"] and "\x01" not in s["src"]]
    jobs, meta = [], []
    for _ in range(ctx.n(140, 1500)):
        g = [r.choice(Q) for _ in range(r.choice([2, 3, 6, 12]))]
        k = max(12, r.choice(g)[1]["hi"] + r.choice([0, 0, 1, -1, 3]))
        jobs.append({"src": "\x01".join(s["src"] for s, _ in g), "opts": {"seq": 1, "stack": k, "gc": r.choice(["nat", "every:3"])}})
        meta.append((k, g))
    for (k, g), j, x in zip(meta, jobs, nj.run(jobs)):
        ctx.count["compared"] += 1
        if x["st"] == "boot":
            continue
        w, got = None, (x.get("seq") or []) + [x]
        if len(got) != len(g):
            w = "of %d programs run in a row the %dth ended with %s" % (len(g), len(got), x.get("msg", x.get("why")))
        for i, ((s, e), q) in enumerate(zip(g, got)):
            if w:
                break
            if k >= e["hi"]:
                w = judge(e, q)
            else:
                ctx.kinds["out of stack, runtime used again"] += i + 1 < len(g)
                w = None if q["st"] == "err" and q["msg"] == "Out of stack" and e["out"].startswith(q["out"]) else "the error 'Out of stack' was expected, got %s %s" % (q["st"], q.get("msg"))
            if w:
                w = "program %d of %d in one runtime with room for %d operands, which needs %d: %s\n%s" % (i + 1, len(g), k, e["hi"], w, s["src"])
        if w:
            ctx.violation(w[:1500], {"src": j["src"], "opts": j["opts"], "observed": {k: x.get(k) for k in ("st", "etype", "msg", "out", "rets", "seq", "why", "log")}})
    # the same program gives the same outcome whenever it is run
    for s, e in some(r, P, ctx.n(40, 300)):
        ctx.sample({"src": s["src"][:200]})


# ------------------------------------------------------------------ profiling
PROF = ["fun f(x) { return g(x) + g(1); } fun g(y) return y; fun unused() return 0; i = 0; while i < <n>: { f(i); i = i + 1; } g(2); return i;",
        "fun r(n) { if n > 0: return r(n - 1); return 0; } r(<n>); r(0);", "fun mk(k) { fun in() return k; return in; } a = mk(1); b = mk(2); a(); b(); b(); mk(3);",
        "i = 0; while i < <n>: { fun h() return i; h(); h(); i = i + 1; } h(); g = h; g();", "fun f(a=d(), b: int=d()) return a; fun d() return 4; f(); f(1); f(1, 2); f(1, 'x');",
        "fun f() return f2(); fun f2() return none.x.y; fun f2() { error('q'); } f();", "o = {n: 1, fun get(self) return self.n}; o->get(); o->get(); o.get(o); o.n();",
        "fun f() return 1; f(); fun f() return 2; f(); f(); return f;", "fun a_very_long_function_name_indeed(x) return x; fun \u00e9() return 1; a_very_long_function_name_indeed(); ",
        "fun f() { return 1; } x = {f: f, g: [f, f]}; x.f(); x.g[0](); x.g[1](); (f)(); [f][0]();", "fun f(x: int) return x; f('a');", "fun z() { } z(); z(); z();",
        "fun f(x) { fun g(y) { fun h(z) return x + y + z; return h(1) + h(2); } return g(1) + g(2); } f(1); f(2);"]


@check("C35")
def profiling(ctx):
    r = ctx.rng
    S = [tpl(t, n=["0", "1", "3", "7"]) for t in PROF] + progs(ctx, ctx.n(120), closures=1.2, loops=.6, maxst=12) + progs(ctx, ctx.n(60), err=.04, closures=1.2)
    # few calls and many
    for t in ("fun f() return 1; fun g() { return f(); } i = 0; while i < <n>: { f(); if i % 2 == 0: g(); i = i + 1; }", "fun f(x) { return x; } i = 0; while i < <n>: { i = f(i) + 1; }"):
        for n in ({10, 101, r.choice([127, 128, 129]), 257 + r.randint(0, 60)} if ctx.quick else {2, 10, 99, 101, 127, 128, 129, 255, 256, 257, 513, 1000, 1025, 2049}):
            S.append({"src": t.replace("<n>", str(n)), "max": 60000})
    for n in (1, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000):
        a = r.choice("fgz_") * n
        S.append({"src": "fun %s() return 1; fun %sb() return %s(); %s(); %sb(); g = { fun %s2(x) return x; }; M = {k: %sb}; M.k();".replace("g = { fun %s2(x) return x; }; ", "").replace("%s", a)})
    # every number of parameters with every number of arguments, of results with the results asked for
    for n in range(9):
        ps = ", ".join("p%d" % i for i in range(n))
        S.append({"src": "fun f(%s) {} fun g(%s) { return %s; } " % (ps, ps, ps or "0") + "".join("f(%s); " % ", ".join("1" * k) for k in range(10)) + "x = g(%s); x, y = g(); x, y, z = g(1); [g(2)];" % ps.replace("p", "")})
        S.append({"src": "fun f(%s) return 1; i = 0; while i < 3: { f(%s); i = i + 1; }" % (", ".join("p%d: int = %d" % (i, i) for i in range(n)), ", ".join("i" * r.randint(0, n)))})
    ex = [(s, e) for s, e in spec.explore([thin(ctx, dict(s, max=s.get("max", 3000))) for s in S], module="NojaObs", default_max=3000)
          if e["st"] in ("done", "err") and e["cat"] != "Internal"]
    for opt in ({}, {"gc": "every:4", "heap": 1 << 20}):
        for (s, e), a in zip(ex, nj.run([{"src": s["src"], "opts": dict(opt, time=1)} for s, e in ex])):
            ctx.count["compared"] += 1
            w = judge(e, a)
            got = []
            for line in (a.get("prof") or "").split("\n"):
                if not line:
                    continue
                m = re.match(r" *(.*) - (.*?) - (\d+) calls - (\d+\.\d\d)us$", line)
                if not m:
                    w = w or "malformed line in the profile: %r" % line
                elif m.group(2) == "main":
                    got.append((m.group(1), int(m.group(3))))
            want = [(n, k) for n, c, k in e["made"] if k > 0]
            if not w and sorted(got) != sorted(want):
                w = "expected calls %s, the profile says %s" % (want, got)
            if w:
                ctx.violation("%s\n%s" % (w, s["src"]), {"src": s["src"], "opts": dict(opt, time=1), "expected": want, "observed": a.get("prof")})
            else:
                ctx.distinct.add(hash(s["src"]))
                ctx.kinds["profile lines"] += len(want)
    for s, e in ex[:4]:
        ctx.sample({"src": s["src"][:200], "calls": e["made"]})


# ------------------------------------------------------------------ configured limits
@check("C40")
def limits(ctx):
    """The operand stack and the heap have the sizes the host configured."""
    r = ctx.rng
    S = [tpl(t, v=some(r, HV, 1)) for t in HOLD] + control_src(ctx, ctx.n(30)) + progs(ctx, ctx.n(60), closures=1.2, maxst=8)
    # nearly all that 16 calls of 16 operands can use
    for n in (6, 9, 12, 13):
        for w in (4, 10, 13):
            S.append({"src": "fun f(n) { if n == 0: return [1, 2, 3]; x = [%sf(n - 1)]; return x[%d]; } return f(%d);" % ("".join("%d, " % i for i in range(w)), w, n)})
    S += [tpl("fun f(a, b, c) { if a == 0: return [b, [c, [a, b]]]; return f(a - 1, [b], c)[0]; } return [1, 2, [3, f(<n>, 1, 2)]];", n=["0", "1", "5", "9", "12"])]
    ex = [(s, e) for s, e in spec.explore([thin(ctx, dict(s, max=1500)) for s in S], module="NojaObs", default_max=1500) if e["st"] in ("done", "err") and not e["lib"]]
    jobs, meta = [], []
    for s, e in ex:
        for k in sorted({e["hi"], e["hi"] + 1, e["hi"] - 1, max(1, e["hi"] // 2), e["hi"] + r.randint(2, 40)}):
            if k < 1:
                continue
            jobs.append({"src": s["src"], "opts": {"stack": k}})
            meta.append((s, e, k))
    for (s, e, k), j, a in zip(meta, jobs, nj.run(jobs)):
        ctx.count["compared"] += 1
        ctx.count["run"] += 1
        ctx.distinct.add(hash(s["src"]))
        if a["st"] == "boot" and a["msg"] == "Out of stack" and k < 12:
            ctx.kinds["too small for the library"] += 1
            continue
        if k >= e["hi"]:
            w = judge(e, a)
            w = w and "with room for %d operands (at most %d are needed): %s" % (k, e["hi"], w)
        else:
            ctx.kinds["out of stack"] += 1
            w = None
            if a["st"] in common.BAD or a["st"] != "err" or a["etype"] != "Runtime" or a["msg"] != "Out of stack" or not e["out"].startswith(a["out"]):
                w = "with room for %d operands (%d are needed) the error 'Out of stack' was expected, got %s %s" % (k, e["hi"], a["st"], a.get("msg", a.get("why")))
        if w:
            ctx.violation("%s\n%s" % (w, s["src"]), {"src": s["src"], "opts": j["opts"], "expected": e, "observed": {x: a.get(x) for x in ("st", "etype", "msg", "out", "rets", "why", "log")}})
    for s, e in ex[:4]:
        ctx.sample({"src": s["src"][:200], "operands": e["hi"]})
    # a live part that cannot fit is an error, never a crash
    grow = ["L = []; i = 0; while true: { L[i] = [i, %s]; i = i + 1; }", "M = {}; i = 0; while true: { M[i] = {k: %s}; i = i + 1; }", "s = 'ab'; while true: { s = string.cat(s, s, toString(%s)); }",
            "fun w(x) { fun in() return x; return in; } f = w(%s); while true: f = w(f);", "x = none; while true: x = [x, buffer.new(64), %s];", "L = []; while true: { L = [L, %s]; L[1] = L; }"]
    jobs = [{"src": g % r.choice(HV), "opts": {"heap": r.choice([6000, 8000, 12000, 20000, 64000]) + r.randrange(0, 500), "max": 400000, "gc": r.choice(["nat", "nat", "every:7"])}} for g in grow for _ in range(ctx.n(6, 60))]
    for j, a in zip(jobs, nj.run(jobs)):
        ctx.count["compared"] += 1
        ctx.kinds["heap exhausted"] += 1
        if a["st"] == "gcfail" and a.get("gcmsg") == "Out of heap":
            continue
        if not (a["st"] == "err" and a["etype"] == "Internal" and a["msg"] == "Out of heap"):
            ctx.violation("expected the error 'Out of heap', got %s %s\n%s" % (a["st"], a.get("msg", a.get("why")), j["src"]), {"src": j["src"], "opts": j["opts"], "observed": a})
