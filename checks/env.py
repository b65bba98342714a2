"""What programs do to the world outside: imported scripts, files, directories,
standard input, and the handles behind them."""
import string, itertools, os
from lib import nj, spec, common
from lib.common import conform, compare_all, judge, thin, execute
from . import check
from .util import tpl, some, progs

WALK = "fun walk(p) { d = files.openDir(p); if d == none: return none; M = {}; n = 0; x = files.nextDirItem(d); while x != none: { n = n + 1; if M[x] == none: M[x] = 1; else M[x] = M[x] + 1; x = files.nextDirItem(d); } return n, M, d; } "
GCS = ({}, {"gc": "every:4"})


def world(r, scripts=False):
    """a random file tree"""
    data = ["", "x", "hello\nworld\n", "no newline at end", "\u00e9\u4e2d\U0001F600", b"\x00\x01\xff\xfe\x00", b"\x80" * 7,
            "line\r\nline\r\n", bytes(range(256)), b"q" * 4095, b"k" * 4097]
    names = ["a.txt", "b", ".h", "c.d.e", "sp ace", "z" * 40, "d/a.txt", "d/e/f.txt", "d/e/a", "g/h/i/j", "e/x", "\u00e9.txt"]
    fs = {"files": {p: r.choice(data) for p in r.sample(names, r.randint(3, 8))}, "dirs": r.sample(["m", "d/empty", "n/o", "..."], r.randint(0, 3)),
          "cwd": r.choice(["", "", "d", "d/e", "cw"]), "main": None}
    fs["dirs"] = [d for d in fs["dirs"] + [fs["cwd"]] if d]
    if r.random() < .3:
        fs["main"] = r.choice(["main.noja", "s/main.noja"])
        fs["files"][fs["main"]] = ""
        fs["rel"] = r.random() < .5
    return fs


def paths(r, fs, n):
    """n path texts: of existing things, seen from the working directory, in many spellings, and of things that are not there"""
    cwd = [x for x in fs["cwd"].split("/") if x]
    things = [p for p in fs["files"] if not p.endswith(".noja")] + list(fs["dirs"]) + ["d", "d/e", ""]
    out = []
    for _ in range(n):
        t = r.choice(things)
        k = r.random()
        if k < .2:
            t = "/".join([t, r.choice(["nope", "new.txt", "x/y", ".", "..", "a.txt"])]).lstrip("/")
        elif k < .3:
            t = r.choice(["new", "new/", "nope/x", "q" * 255, "q" * 256, "d/" + "w" * 300, "\u00e9" * 127, "\u00e9" * 128, "new.d"])
        c = [x for x in t.split("/") if x]
        slash = "/" if t.endswith("/") else ""
        if r.random() < .2:
            p = "/w/" + "/".join(c) + slash
        elif c[:len(cwd)] == cwd and r.random() < .8:
            p = "/".join(c[len(cwd):]) + slash
        else:
            p = "/".join([".."] * len(cwd) + c) + slash
        for _ in range(r.choice([0, 0, 1, 2])):
            i = r.choice([i for i in range(3 if p[:2] == "/w" else 0, len(p)) if p[i] == "/"] or [-1])
            if i < 0 and p[:1] == "/":
                continue
            if i < 0:
                p = r.choice(["./", ".//", "././"]) + p
            else:
                p = p[:i] + r.choice(["/./", "//", "///", "/././/"]) + p[i + 1:]
        if p and r.random() < .1:
            p += r.choice(["/", "/.", "//", "/.."])
        out.append(p)
    return out


def file_program(r, fs):
    """a random program working with several open files at once"""
    ps = paths(r, fs, 5)
    L = ["B0 = buffer.new(%d);" % r.choice([0, 1, 5, 16, 300]), "B1 = buffer.fromString('%s');" % r.choice(["", "abc", "h\u00e9", "0123456789\\n", "x" * 100]),
         "B2 = buffer.new(8); B2[1] = 255; B2[7] = 10; B3 = buffer.sliceUp(B2, 1, 5); R = [];"]
    open_ = set()
    for _ in range(r.randint(3, 9)):
        k = r.randrange(3)
        x = r.random()
        if x < .35 or not open_:
            mode = r.choice(["files.READ", "files.READ", "files.WRITE", "files.APPEND", "0", "1", "2", "3", "files.READ + files.WRITE"])
            L.append("f%d, e%d = files.openFile('%s', %s); R[count(R)] = e%d; if f%d == none: print('-'); else print(type(f%d));" % (k, k, r.choice(ps), mode, k, k, k))
            open_.add(k)
            continue
        k = r.choice(sorted(open_))
        b = r.choice(["B0", "B1", "B2", "B3", "buffer.new(3)"])
        n = r.choice(["", "", ", none", ", 0", ", 1", ", 3", ", 1000", ", 9223372036854775807"])
        if x < .65:
            L.append("if f%d != none: { R[count(R)] = files.read(f%d, %s%s); R[count(R)] = %s; print(%s); }" % (k, k, b, n, b, b))
        elif x < .92:
            L.append("if f%d != none: R[count(R)] = files.write(f%d, %s%s);" % (k, k, b, n))
        elif x < .95:
            L.append("B%d[0] = 88;" % r.randrange(1, 4))
        elif x < .97:
            L.append("f%d = %s;" % (k, r.choice(["none", "f%d" % k, "[f%d][0]" % k])))
        else:
            L.append(r.choice(["files.read(f%d, B0, 0 - 1);" % k, "files.write(f%d, 'x');" % k, "error('stop');", "none.x.y;"]))
    return {"src": " ".join(L) + " return R, B0, B1, B2;", "fs": fs}


def batches(ctx, pred, scns, **kw):
    conform(ctx, scns, **kw)


@check("C31")
def files_(ctx):
    """Reading and writing files against the file system specification."""
    r = ctx.rng
    S = []
    # every mode on every kind of path
    for _ in range(ctx.n(6, 60)):
        fs = world(r)
        S.append(tpl("f, e = files.openFile('<p>', <m>); if f == none: return 'no', e; b = buffer.new(6); n = files.read(f, b); w = files.write(f, buffer.fromString('<t>')<n>); return n, b, w, type(f) == File, e;",
                     fs=fs, p=sorted(set(paths(r, fs, 6))), m=["files.READ", "files.WRITE", "files.APPEND", "3"], t=["", "ab", "0123456789"] if not ctx.quick else ["ab"], n=["", ", 1"]))
    # argument checks
    fs = {"files": {"a": "0123456789"}, "dirs": ["d"], "cwd": "", "main": None}
    V = ["none", "1", "-1", "4", "2.5", "'a'", "''", "true", "[]", "files", "buffer.new(4)", "f", "files.openDir('d')", "9223372036854775807"]
    N = ["4294967296", "4294967297", "4294967300", "2147483648", "2147483649", "-4294967295", "-9223372036854775807", "65537", "257", "0", "5"]
    S.append(tpl("f = files.openFile('a', 0); x, e = files.openFile(<v>, <m>); return x, e;", fs=fs, v=some(r, V, ctx.n(7, 14)), m=V))
    S.append(tpl("f = files.openFile('a', <o>); n = files.<g>(<v>, <b>, <c>); return n;", fs=fs, o=["0", "1"], g=["read", "write"], v=["f", "none", "'a'", "files.openDir('.')"],
                 b=["buffer.new(4)"] + some(r, V, ctx.n(2, 8)), c=["none", "3"] + some(r, V, ctx.n(3, 10))))
    S.append(tpl("f = files.openFile('<p>', <o>); b = buffer.new(4); b[0] = 1; n = files.<g>(f, b, <c>); m = files.<g~>(f, b, 1); return n, m, b;", fs=fs, p=["a", "new"], o=["0", "1", "2"], g=["read", "write"], c=N + ["9223372036854775807"]))
    # chunked copies: sizes around the buffer of the C library
    for size in [0, 1, 7, 512, 4095, 4096, 4097, 9000]:
        body = bytes((i * 7 + i // 256) % 256 for i in range(size))
        S.append(tpl("f = files.openFile('in', files.READ); g = files.openFile('out', <m>); b = buffer.new(<c>); t = 0; n = files.read(f, b); while n > 0: { t = t + files.write(g, b, n); n = files.read(f, b); } return t, b[0], files.read(f, b);",
                     fs={"files": {"in": body, "out": "old"}, "cwd": "", "main": None}, m=["files.WRITE", "files.APPEND"], c=["1000", "4096"] if size > 600 else ["3", "1000"], max=20000))
    # transfers of any size at once
    for size in some(r, [255, 256, 257, 32767, 32768, 65535], 2) + [65536 + r.randint(0, 2), 70000] + ([] if ctx.quick else [131072, 200001]):
        body = bytes((i * 7 + i // 256) % 256 for i in range(size))
        S.append(tpl("f = files.openFile('in', files.READ); b = buffer.new(<c>); n = files.read(f, b<k>); g = files.openFile('out', <m>); w = files.write(g, b<k~>); v = files.write(g, b, n); return n, w, v, b[0], b[n - 1];",
                     fs={"files": {"in": body, "out": "old"}, "cwd": "", "main": None}, m=["files.WRITE", "files.APPEND"], c=[str(size), str(size + 5), str(size - 1)][: 2 if ctx.quick else 3], k=["", ", %d" % (size - 1), ", none"][: 2 if ctx.quick else 3], max=20000))
    # what was written is there however the program ends
    S.append(tpl("f = files.openFile('o', <m>); files.write(f, buffer.fromString('abc')); <k> files.write(f, buffer.fromString('d\u00e9')); <x>", fs={"files": {"o": "zz"}, "cwd": "", "main": None}, m=["1", "2"],
                 k=["", "g = f; f = none; f = g;", "L = [f, {f: 1}.q];", "fun k() return f; f = k();"],
                 x=["", "return f;", "error('e');", "none + 1;", "fun r() return r(); r();", "f = none; i = 0; while i < 5: { i = i + 1; t = [i]; } return i;"]))
    S += [file_program(r, world(r)) for _ in range(ctx.n(260))]
    conform(ctx, S, schedules=GCS if not ctx.quick else ({},), lines=True)


@check("C32")
def dirs_(ctx):
    """Directory listings, in whatever order they come."""
    r = ctx.rng
    S = []
    for _ in range(ctx.n(22, 200)):
        fs = world(r)
        names = sorted({x for p in list(fs["files"]) + list(fs["dirs"]) for x in p.split("/")} | {".", "..", "zz"})
        q = ", ".join("M['%s']" % x for x in names)
        S.append(tpl(WALK + "n, M, d = walk('<p>'); if n == none: return 'no'; return n, count(M), [%s], files.nextDirItem(d), type(d) == Directory;" % q, fs=fs, p=sorted(set(paths(r, fs, 8)))))
        a, b = r.sample(sorted(set(paths(r, fs, 9))) + [".", "."], 2)
        # two open listings of the same or different directories, read alternately
        S.append({"fs": fs, "src": "d = files.openDir('%s'); e = files.openDir('%s'); A = {}; B = {}; i = 0; n = 0; if d == none: return 'd'; if e == none: return 'e'; while i < 30: { x = files.nextDirItem(d); if x != none: { A[x] = true; n = n + 1; } "
                                    "y = files.nextDirItem(e); if y != none: { B[y] = true; n = n + 1; } i = i + 1; } return n, count(A), count(B), [%s], [%s];" % (a, b, q.replace("M[", "A["), q.replace("M[", "B["))})
        # recursive walk: all files below a directory
        S.append({"fs": fs, "max": 40000, "src": "fun deep(p) { d = files.openDir(p); if d == none: return 0, 1; n = 0; f = 0; x = files.nextDirItem(d); while x != none: { if x != '.' and x != '..': { a, b = deep(string.cat(p, '/', x)); n = n + a + 1; f = f + b; } x = files.nextDirItem(d); } return n, f; } a, b = deep('%s'); return a, b;" % r.choice(["/w/", ".", "/w/d"])})
    big = {"files": {"n%03d" % i: "" for i in range(ctx.n(60, 300))}, "dirs": ["s"], "cwd": "", "main": None}
    S.append({"fs": big, "max": 60000, "src": WALK + "n, M = walk('.'); return n, count(M), M.n007, M.n059, M.s, M.zz;"})
    # names of every length the file system allows, and of all kinds of characters
    for _ in range(ctx.n(6, 40)):
        names = {r.choice("ab._-~ \u00e9") * k + str(k) for k in r.sample(range(1, 120), 6)} | {"x" * k for k in r.sample(range(100, 256), 8)} | {".hidden", "...", "a b", "%s", "-n", "#"} | {r.choice(["", ".", "..", "...", "_", "~", "#", "-"]) + c + "".join(r.choice(string.ascii_letters + "._~0") for _ in range(r.randint(0, 6))) + r.choice(["", "~", ".bak", ".", "#"]) for c in string.ascii_letters + "0_-"}
        q = ", ".join("M['%s']" % x for x in sorted(names))
        S.append({"fs": {"files": {("d/" + x): "" for x in names}, "dirs": ["d/" + "y" * r.randint(1, 255)], "cwd": "", "main": None}, "max": 80000, "src": WALK + "n, M = walk('d'); return n, count(M), [%s];" % q})
    V = ["none", "1", "2.5", "true", "[]", "files", "buffer.new(4)", "files.openDir", "''", "files.openFile('a', 0)"]
    S.append(tpl("d, e = files.openDir(<v>); return d, e;", fs={"files": {"a": ""}, "cwd": "", "main": None}, v=V))
    S.append(tpl("d = files.nextDirItem(<v>); return d;", fs={"files": {"a": ""}, "cwd": "", "main": None}, v=V + ["'.'"]))
    conform(ctx, S, schedules=({}, {"gc": "every:3"}), lines=True)


# ------------------------------------------------------------------- imports
def script_world(r):
    """a tree of scripts that import each other through relative and absolute paths"""
    where = r.sample(["a.noja", "b.noja", "lib/c.noja", "lib/d.noja", "lib/sub/e.noja", "x/y/f.noja", "x/g.noja"], r.randint(2, 5))
    main = r.choice(["main.noja", "app/main.noja", None])
    cwd = r.choice(["", "lib", "app", "cw"])
    fs = {"files": {}, "dirs": ["lib", "app", "cw", "x/y"], "cwd": cwd, "main": main, "rel": r.random() < .5}

    def rel(frm, to):
        k = r.random()
        if k < .15:
            return "/w/" + to
        d = os.path.dirname(frm) if frm else cwd
        p = os.path.relpath(to, d or ".")
        if k < .3: p = "./" + p
        if k < .4: p = p.replace("/", "//", 1)
        if k > .85: p = r.choice(["nope.noja", "../" + p, p + ".x", "lib", "", os.path.basename(to)])
        return p
    for i, p in enumerate(where):
        body = ["print('<%s>');" % os.path.basename(p)[0] if r.random() < .6 else "", "v = %d; s = 'from %s';" % (i, p), "fun where() return getCurrentScriptDirectory(), getCurrentScriptLocation(), getCurrentWorkingDirectory();",
                "fun load(q) return import(q);", "fun fail(x) {\n return x.y.z;\n}", "n = [v]; fun bump() { n[0] = n[0] + 1; return n[0]; }"]
        if i and r.random() < .6:
            body.append("%s = import('%s');" % (r.choice(["sub", "o", "_"]), rel(p, where[r.randrange(i)])))
        if r.random() < .12:
            body.append(r.choice(["error('in %s');" % p, "x = none.q.r;", "return 5, 'six';", "return;"[:0] + "return none;", "x = = 1;", "print('unclosed", "break;"]))
        r.shuffle(body)
        fs["files"][p] = r.choice(["\n", " "]).join(body)
    src = []
    for k in range(r.randint(1, 3)):
        src.append("m%d%s = import('%s'); print(type(m%d));" % (k, ", z%d" % k if r.random() < .2 else "", rel(main, r.choice(where)), k))
        src.append(r.choice(["", "if type(m%d) == Map: { a, b, c = m%d.where(); print(a, b, c); }" % (k, k), "print(m%d.v, m%d.s);" % (k, k), "print(m%d.bump(), m%d.bump());" % (k, k),
                             "q = m%d.load('%s'); print(type(q));" % (k, r.choice(["a.noja", "../a.noja", "c.noja", "sub/e.noja", "/w/lib/c.noja"])), "m%d.fail(1);" % k, "if m%d.sub != none: print(m%d.sub.v);" % (k, k)]))
        if k and r.random() < .5:
            src.append("m%d.v = 'changed'; print(m0.v, m0.n); m%d.bump(); print(m%d.bump(), m0.bump());" % (k, k, k))
    src.append("return getCurrentScriptDirectory(), getCurrentScriptLocation(), getCurrentWorkingDirectory();")
    if main:
        fs["files"][main] = ""
    s = {"src": "\n".join(src), "fs": fs}
    s["names"] = names_of(fs)
    return s


def names_of(fs):
    n = {i + 3: p for i, p in enumerate(spec.scripts(fs))}
    if fs.get("main"):
        n[2] = fs["main"]
    return n


@check("C30")
def imports(ctx):
    r = ctx.rng
    S = [script_world(r) for _ in range(ctx.n(150))]

    def add(src, files, **kw):
        fs = dict({"files": files, "cwd": "", "main": None}, **kw)
        if fs["main"]:
            files[fs["main"]] = ""
        S.append({"src": src, "fs": fs, "names": names_of(fs), "max": 6000})
    # cycles, self import and depth
    add("m = import('a.noja'); return m.v;", {"a.noja": "v = 1; o = import('b.noja');", "b.noja": "o = import('a.noja');"})
    add("import('main.noja');", {}, main="main.noja")
    add("n = 0; m = import('a.noja'); return m.d;", {"a.noja": "fun go(k) { if k == 0: return 0; return 1 + import('a.noja').go(k - 1); } d = 4;"})
    for k in range(1, 7):
        add("return import('a.noja').go(%d);" % k, {"a.noja": "fun go(k) { if k == 0: return 0; return 1 + import('a.noja').go(k - 1); }"})
    # results: everything the script returns, or its variables
    for x in ["return 1;", "return 1, 'b', [3];", "return;"[:0] + "x = 1; y = x; return x;", "", "a = 1; fun f() return a; { b = 2; } if true: c = 3;", "return none;"]:
        add("a, b, c, d = import('m.noja'); return a, b, c, d;", {"m.noja": x})
        add("return import('m.noja');", {"m.noja": x})
        add("import('m.noja'); return [import('m.noja')], {k: import('m.noja')};", {"m.noja": x})
    # scope: the script sees neither the importer's variables nor its changes to library names; its own stay its own
    add("v = 5; print = none; assert(true); m = import('m.noja'); return m.w;", {"m.noja": "print('ok'); w = 1; return {w: w};"})
    add("v = 5; m = import('m.noja'); return m;", {"m.noja": "w = v;"})
    add("fun f() { q = 1; return import('m.noja'); } f();", {"m.noja": "w = q;"})
    add("m = import('m.noja'); return w;", {"m.noja": "w = 1;"})
    add("m = import('m.noja'); m.w = 9; return m.get(), import('m.noja').get();", {"m.noja": "w = 1; fun get() return w;"})
    # functions run later keep their script's folder
    add("m = import('lib/m.noja'); return m.inner(), m.dir();", {"lib/m.noja": "fun inner() return import('n.noja').x; fun dir() return getCurrentScriptDirectory();", "lib/n.noja": "x = 'lib';", "n.noja": "x = 'top';"})
    add("fun cb() return import('n.noja').x; m = import('lib/m.noja'); return m.run(cb);", {"lib/m.noja": "fun run(f) return [f(), import('n.noja').x];", "lib/n.noja": "x = 'lib';", "n.noja": "x = 'top';"})
    add("fun cb() return getCurrentScriptLocation(); m = import('../lib/m.noja'); return m.run(cb), getCurrentScriptLocation();", {"lib/m.noja": "fun run(f) return [f(), getCurrentScriptLocation()];"}, main="app/main.noja", cwd="lib")
    # the folder that counts is that of the script (the working directory when there is none), wherever else such a script exists
    for main in (None, "main.noja", "app/main.noja"):
        for cwd in ("", "lib", "app"):
            for has in itertools.product((0, 1), repeat=3):
                if ctx.quick and r.random() < .3:
                    continue
                files = {d + "n.noja": "x = 'in %s';" % d for d, h in zip(("", "lib/", "app/"), has) if h}
                files["lib/m.noja"] = "fun far() return import('n.noja').x; fun up() return import('../n.noja').x;"
                add("m = import('/w/lib/m.noja'); print(type(m)); %s" % r.choice(["return import('n.noja').x;", "return m.far();", "return m.up();", "return import('../app/n.noja').x;", "return import('./n.noja').x, m.far();"]), files, main=main, cwd=cwd, dirs=["lib", "app"])
    # folders with names of many lengths and endings
    for _ in range(ctx.n(30, 200)):
        d = "/".join("".join(r.choice("abcdeklmnorstz._-") for _ in range(r.choice([1, 2, 5, 40, 120]))).replace("..", "xy").strip(".") + r.choice("abcdefghijklmnopqrstuvwxyz_-0") for _ in range(r.randint(1, 4)))
        add("a, b = getCurrentScriptDirectory(), 1; m = import('%s/m.noja'); return m.d(), m.l(), m.v, getCurrentScriptDirectory(), getCurrentScriptLocation();".replace("a, b = getCurrentScriptDirectory(), 1; ", "") % d,
            {d + "/m.noja": "fun d() return getCurrentScriptDirectory(); fun l() return getCurrentScriptLocation(); v = import('../n.noja').x;", "/".join(d.split("/")[:-1] + ["n.noja"]): "x = 'up';"}, main=None)
        add("m = import('n.noja'); return m.d(), m.x, getCurrentScriptDirectory(), getCurrentScriptLocation();", {d + "/n.noja": "fun d() return getCurrentScriptDirectory(); x = import('%s/k.noja');" % "/".join([".."] * (d.count("/") + 1)), "k.noja": "return 'k';"}, main=d + "/main.noja")
    # arguments
    S.append(tpl("return import(<v>);", fs={"files": {"a.noja": "return 7;"}, "dirs": ["d"], "cwd": "", "main": None},
                 v=["none", "1", "[]", "'a.noja'", "'./a.noja'", "'d/../a.noja'", "'/w/a.noja'", "'a.noja/'", "'a'", "'d'", "''", "'d/a.noja'", "'nope/../a.noja'", "'%s'" % ("./" * 600 + "a.noja"), "'%s'" % ("./" * 40 + "a.noja"), "'A.noja'", "a"]))
    # errors inside
    for body in ["x = 1;\n\n error('deep');", "fun f() {\n  return none.a.b;\n}\n f();", "m = import('nope.noja');", "\n\nx = = 2;", "return 1 2;", "print('p'); import('c.noja');", "fun f(x: int) return x;\nf('s');"]:
        add("print('start');\nm = import('m.noja');\nprint('not here');", {"m.noja": body, "c.noja": "print('q');\n none + 1;"}, main="main.noja")
    conform(ctx, S, schedules=({}, {"gc": "every:3"}) if not ctx.quick else (lambda s, e: {"gc": "every:3"} if hash(s["src"]) % 2 else {},), lines=True)


# --------------------------------------------------------------------- input
@check("C33")
def input_(ctx):
    """input() returns the lines of standard input, one by one."""
    r = ctx.rng
    S = []
    ch = ["a", " ", "\t", "\u00e9", "\U0001F600", "\r", "0", "'", "\\", "\u4e2d", "\x00", "\x01", "\x7f"]
    def line():
        k = r.random()
        n = 0 if k < .2 else r.randint(1, 12) if k < .7 else r.choice([84, 85, 126, 127, 128, 253, 254, 255, 256, 257, 300, 509, 510, 511, 512, 513, 765, 1020, 1021, 1500])
        if n > 12:
            c = r.choice(["x", "x", "\u00e9", "\u4e2d", "\U0001F600"])
            return c * n + r.choice(["", "y"])
        return "".join(r.choice(ch) for _ in range(n))
    T = ["a = input(); b = input(); c = input(); d = input(); e = input(); return a, b, c, d, e;",
         "i = 0; while i < 7: { x = input(); print('[', x, ':', count(x), ']'); i = i + 1; } return x;",
         "fun ask(q) { print(q); return input(); } return ask('a'), ask('b'), input();",
         "return [input(), input(), input()], {input(): input()}, input(1, 2);",
         "L = []; i = 0; while i < 5: { L[i] = buffer.fromString(input()); i = i + 1; } return L;",
         "x = input(); while x != '': { n, e = string.toInt(x); print(n, e, '.'); x = input(); } return input();",
         "a = input(); return a == input(), string.cat(a, input(), '|'), [string.trim(input())];"]
    for _ in range(ctx.n(420)):
        n = r.choice([0, 1, 2, 3, 5, 8])
        text = "\n".join(line() for _ in range(n)) + r.choice(["", "\n", "\n\n"])
        S.append({"src": r.choice(T), "stdin": text})
    # lines that aren't UTF-8 text are refused, each on its own
    bad = [b"\xff", b"\xfe", b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\xbf", b"\xfc", b"\xff\xff"]
    for _ in range(ctx.n(90)):
        ls = [line().encode() for _ in range(r.randint(1, 5))]
        i = r.randrange(len(ls))
        ls[i] = (b"x" * r.choice([0, 1, 2, 3, 84, 253, 254, 255, 256, 257, 511, 512])) + r.choice(bad) + r.choice([b"", b"y", b"tail", b"z" * 300])
        S.append({"src": r.choice(T), "stdin": (b"\n".join(ls) + r.choice([b"", b"\n"])).decode("utf-8", "surrogateescape")})
    conform(ctx, S, schedules=({}, {"gc": "every:3"}))


# ------------------------------------------------------------------- handles
@check("C27")
def handles(ctx):
    """Every file and directory is closed exactly once: when the collector finds
    it unreachable, or at the end of the run."""
    r = ctx.rng
    OPEN = ["files.openFile('a', 0)", "files.openFile('d/b', files.READ)", "files.openDir('.')", "files.openDir('d')", "files.openFile('new%d', files.WRITE)", "files.openFile('a', 2)"]
    KEEPERS = ["x = {o};", "L[count(L)] = {o};", "M['k'] = {o};", "M[i] = [{o}];", "fun c() return {o};", "fun mk(h) {{ fun g() return h; return g; }} G = mk({o});", "L[0] = {o};", "{o};", "t = [{o}, {o}]; t = t[1];",
               "fun tmp() {{ z = {o}; return 1; }} tmp();", "x = none;", "L = [];", "M = {{}};", "G = none;", "x = {{h: {o}, s: none}}; x.s = x;", "y = ?x;", "if x != none: print(',');", "print(',', {o});",
               "fun err(h) {{ w = h; }} err({o});", "x, e = files.openFile('nope', 0);", "d = files.openDir('d'); n = type(files.nextDirItem(d));", "f = files.openFile('a', 0); b = buffer.new(2); n = files.read(f, b);"]
    fs = {"files": {"a": "hello", "d/b": "there"}, "cwd": "", "main": None, "dirs": ["d/e"]}
    S = []
    for _ in range(ctx.n(110)):
        L = ["L = []; M = {}; x = none; G = none; y = none; i = 0;"]
        for k in range(r.randint(3, 9)):
            L.append("i = %d; " % k + r.choice(KEEPERS).format(o=r.choice(OPEN).replace("%d", str(r.randint(0, 10**6)))))
            L.append("print('.');")
        L.append(r.choice(["return x;", "return 1;", "error('e');", "none.a.b;", "", "return [x, L], G;", "import('nope.noja');"]))
        S.append({"src": " ".join(L), "fs": fs, "live": True, "max": 3000})
    pairs = [(s, e) for s, e in spec.explore(S, module="NojaObs", default_max=3000) if e["st"] in ("done", "err")]
    jobs = [dict(common.to_driver(s, {"mark": 1, "final": 1})) for s, e in pairs]
    for (s, e), a in zip(pairs, execute(jobs)):
        ctx.count["run"] += 1
        ctx.count["compared"] += 1
        ctx.kinds[e["st"]] += 1
        ctx.distinct.add(hash(s["src"]))
        w = judge(e, a)
        if not w:
            if len(a["mopen"]) != len(e["live"]) - 1:
                raise spec.SpecError("marks differ: %s / %s for %s" % (a["mopen"], e["live"], s["src"]))
            ctx.kinds["marks"] += len(a["mopen"])
            for i, (m, l) in enumerate(zip(a["mopen"], e["live"][1:])):
                if m != l[2]:
                    w = "after a collection at mark %d, %d files and directories are open; the program can reach %d" % (i, m, l[2])
                    break
        w = w or closed(a)
        if w:
            ctx.violation("%s\n%s" % (w, s["src"]), {"src": s["src"], "fs": common.shown(fs), "expected": {k: e.get(k) for k in ("st", "live")}, "observed": {k: a.get(k) for k in ("st", "msg", "mopen", "final", "h", "why")}})
    for s, e in pairs[:3]:
        ctx.sample({"src": s["src"][:300], "live": e["live"][:4]})
    # whatever the run comes to: errors, interruptions, exhausted memory, collections anywhere
    P = [file_program(r, world(r)) for _ in range(ctx.n(40, 300))] + [script_world(r) for _ in range(ctx.n(25, 200))] + [dict(s) for s in S[:30]]
    js = []
    for s in P:
        js += [common.to_driver(s, o) for o in ({"final": 1}, {"gc": "rnd:%d:3" % r.randint(1, 10**6)}, {"abort": r.randint(1, 90)}, {"heap": r.choice([6000, 7000, 8000, 10000, 14000])}, {"stack": r.choice([4, 8, 12, 20])}, {"gc": "all", "abort": r.randint(20, 200)})]
    for j, a in zip(js, execute(js)):
        ctx.count["run"] += 1
        ctx.count["compared"] += 1
        ctx.kinds["ended: " + a["st"]] += 1
        if a["st"] == "boot":
            continue
        w = closed(a) if a["st"] in ("ok", "err") else "the run ended with '%s' %s" % (a["st"], a.get("gcmsg", a.get("why", "")))
        if w:
            ctx.violation("%s with %s\n%s" % (w, j["opts"], j["src"][:1500]), {"src": j["src"], "fs": common.shown(j.get("fs")), "opts": j["opts"], "observed": a})
    # a close that fails (the device takes no bytes) doesn't keep the other handles from being closed
    W = "fun w(p) { f = files.openFile(p, files.WRITE); files.write(f, buffer.fromString('ab')); return f; } "
    js = []
    for _ in range(ctx.n(60, 600)):
        n = r.randint(1, 7)
        src = W + "L = [];" + " ".join("L[%d] = %s;" % (k, r.choice(["w('/dev/full')", "w('/dev/full')", "w('n%d')" % k, "files.openFile('a', 0)", "files.openDir('d')", "buffer.new(3)"])) for k in range(n))
        src += r.choice(["", " L = none;", " L[%d] = none;" % r.randrange(n), " K = [L[%d]]; L = none;" % r.randrange(n)]) + " i = 0; while i < 9: { t = [i]; i = i + 1; } " + r.choice(["", "return 1;", "error('e');", "fun r(x) return r(x); r(1);"])
        js += [common.to_driver({"src": src, "fs": fs}, o) for o in ({}, {"gc": "rnd:%d:%d" % (r.randint(1, 10**6), r.choice([2, 5, 20]))}, {"abort": r.randint(30, 400)}, {"heap": r.choice([8000, 9000, 10000, 12000])})]
    for j, a in zip(js, execute(js)):
        ctx.count["run"] += 1
        ctx.count["compared"] += 1
        ctx.kinds["failing closes: " + a["st"]] += 1
        w = None if a["st"] == "boot" else closed(a) if a["st"] in ("ok", "err", "gcfail") else "the run ended with '%s' %s" % (a["st"], a.get("why", ""))
        if w:
            ctx.violation("%s with %s\n%s" % (w, j["opts"], j["src"][:1500]), {"src": j["src"], "fs": common.shown(j.get("fs")), "opts": j["opts"], "observed": a})
    # many handles open at the same time
    js = []
    for n in [3, 40, 130, 200, 290] + ([] if ctx.quick else [100, 180, 240, 280, 310, 330]):
        for o in ("files.openDir('d')", "files.openFile('a', 0)", "(i % 2 == 0) and true", "files.openFile('n', files.WRITE)"):
            if o.startswith("("):
                body = "if i % 2 == 0: L[i] = files.openDir('d'); else L[i] = files.openFile('a', 0);"
            else:
                body = "L[i] = %s;" % o
            for tail, h in (("", None), ("L = none; i = 0; while i < 4000: { t = [i]; i = i + 1; }", 150000), ("k = k;", None), ("L = none;", None)):
                src = "k = 0; while k < 2: { L = []; i = 0; while i < %d: { %s assert(type(L[i]) != type(none)); i = i + 1; } %s k = k + 1; } return k;" % (n if tail and h is None and tail != "L = none;" else n, body, tail)
                js.append({"src": src, "fs": fs, "opts": dict({"final": 1, "max": 10**7}, tmo=60, **({"heap": h} if h else {"gc": "rnd:%d:30" % n} if tail == "L = none;" and n < 50 else {}))})
    for j, a in zip(js, execute(js)):
        ctx.count["run"] += 1
        ctx.count["compared"] += 1
        ctx.kinds["many at once: " + a["st"]] += 1
        w = closed(a) if a["st"] in ("ok", "err") else "the run ended with '%s' %s" % (a["st"], a.get("gcmsg", a.get("why", "")))
        if w:
            ctx.violation("%s with %s\n%s" % (w, j["opts"], j["src"][:1500]), {"src": j["src"], "fs": common.shown(j.get("fs")), "opts": j["opts"], "observed": a})
    # a program may open far more files than may be open at once, as long as it lets go of them
    n = ctx.n(3000, 30000)
    for src, res in [("i = 0; while i < %d: { f = files.openFile('a', 0); if f == none: error('no file'); i = i + 1; } return i;" % n, n),
                     ("i = 0; while i < %d: { d = files.openDir('d'); if d == none: error('no dir'); x = files.nextDirItem(d); i = i + 1; } return i;" % n, n)]:
        for h in (30000, 60000):
            a = execute([{"src": src, "fs": fs, "opts": {"heap": h, "max": 10**8, "tmo": 60, "final": 1}}], "rel")[0]
            ctx.count["compared"] += 1
            w = closed(a) or (None if a["st"] == "ok" and a["rets"] == [["i", res]] else "expected %d rounds, got %s %s" % (res, a["st"], a.get("msg")))
            if w:
                ctx.violation("%s (heap %d)\n%s" % (w, h, src), {"src": src, "opts": {"heap": h}, "observed": a})


def closed(a):
    if "h" not in a:
        return "no account of open files: %s %s" % (a.get("st"), a.get("why"))
    fo, fc, do, dc, left = a["h"]
    if left or fo != fc or do != dc:
        return "%d files opened and %d closed, %d directories opened and %d closed, %d left open" % (fo, fc, do, dc, left)
    f = a.get("final")
    if f and a["st"] == "ok" and (not f["ok"] or f["open"]):
        return "%d files stay open when nothing of the program is reachable any more" % f["open"]
