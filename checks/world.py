"""The rest of the outside world: random numbers and sockets."""
import json, os, random, select, shutil, socket, struct, subprocess, termios, time, fcntl
from concurrent.futures import ThreadPoolExecutor
from lib import nj, spec, common
from lib.common import conform
from . import check
from .util import tpl, some, progs, VALUES, DECL, GCS
from .cli import verdict, COUNT

BIG = 9223372036854775807


# ------------------------------------------------------------------ random
def lit(n):
    return "(-9223372036854775807 - 1)" if n == -BIG - 1 else str(n)


def inval(n):
    if abs(n) <= 536870912:
        return ["i", n]
    m, a = [], abs(n)
    while a:
        m.append(a % 10000); a //= 10000
    return ["I", n < 0, m]


def judged(recs):
    """TLC's verdict on recorded draws"""
    fi = os.path.join(nj.workdir(), "rnd%d.json" % os.getpid())
    json.dump([{"id": i, "lo": inval(lo), "hi": inval(hi), "d": [inval(x) for x in d], "again": [inval(x) for x in a], "other": [inval(x) for x in o]} for i, (lo, hi, d, a, o) in enumerate(recs)], open(fi, "w"))
    out, ok = spec.tlc("NojaRandom", None, {"IN": fi, "OUT": fi + ".out"}, tag="rnd")
    rows = spec.read_out(fi + ".out")
    if not ok or len(rows) != len(recs):
        raise spec.SpecError("TLC judged %d of %d sequences\n%s" % (len(rows), len(recs), spec.explain(out)))
    return sorted(rows, key=lambda r: r["id"])


@check("C41")
def randomness(ctx):
    r = ctx.rng
    E = [0, 1, -1, 5, -5, 255, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32 + 1, 2 ** 53 - 1, 2 ** 53 + 1, 2 ** 62 + 1, 2 ** 62 + 3, -2 ** 62 - 1, BIG - 2, BIG - 1, BIG, -BIG + 1, -BIG, -BIG - 1]
    def pairs(n):
        P = [(a, b) for a in E for b in E if a <= b]
        P += [(a, a + k) for a in E for k in (0, 1, 2, 6) if a + k <= BIG]
        P += [tuple(sorted((r.randint(-10 ** k, 10 ** k), r.randint(-10 ** k, 10 ** k)))) for k in range(1, 19)]
        return some(r, P, n)
    SEEDS = ["0", "1", "-1", "7", "123456789", str(BIG), lit(-BIG - 1)]
    S = []
    # whatever number is chosen, these programs do the same; TLC tries the ends, the inside and mixtures
    for lo, hi in pairs(ctx.n(90, 500)):
        S.append({"src": "random.seed(%s); lo = %s; hi = %s; i = 0; ok = true; while i < 25: { x = random.generate(lo, hi); if x < lo: { ok = false; } if x > hi: { ok = false; } i = i + 1; } return ok, type(random.generate(lo, hi)), (random.generate(lo, lo) == lo), random.generate(hi, hi);" % (r.choice(SEEDS), lit(lo), lit(hi)), "pol": 5})
    other = ["", "t = [i, 'x'];", "toString(i);", "print('');", "m = {}; m[i] = [m];", "string.cat('a', 'b');", "t = math.sqrt(2.0);", "fun g() return 1; g();", "s = random;", "none == 1;"]
    for _ in range(ctx.n(60, 500)):
        lo, hi = r.choice(pairs(5))
        g = r.choice(["random.generate(lo, hi)", "random.generate(lo)" if lo >= 0 else "random.generate(lo, hi)", "random.generate()", "random.generate(none, 10)", "random.generate(lo, none)", "random.generate(lo, hi, 5)"])
        a, b = r.choice(other), r.choice(other)
        S.append({"src": "lo = %s; hi = %s; fun draw() { return %s; }\nfun few(n) { random.seed(%s); L = []; i = 0; while i < n: { L[i] = draw(); %s i = i + 1; } return L; }\nfun many(n) { random.seed(%s); i = 0; L = []; while i < n: { %s L[i] = draw(); i = i + 1; } return L; }\na = few(%d); b = many(%d); i = 0; same = true; while i < count(a): { if a[i] != b[i]: same = false; i = i + 1; } return same, count(a), (a[0] >= 0 or lo < 0);"
                  % (lit(lo), lit(hi), g, *[r.choice(SEEDS)] * 0, "S0", a, "S0", b, r.randint(1, 9), r.randint(9, 14)), "pol": 5})
        S[-1]["src"] = S[-1]["src"].replace("S0", r.choice(SEEDS))
    S.append(tpl(DECL + "x = random.<f>; return type(x), isCallable(x), random.nosuch;", f=["seed", "generate"]))
    # arguments of every kind
    vs = VALUES if not ctx.quick else some(r, VALUES, 12)
    for t in ("random.seed(<v>)", "random.seed()", "random.generate(<v>, 1.5)", "random.generate('a', <v>)", "random.generate(<v>, <w>)", "random.seed(<v>, 3)"):
        s = tpl(DECL + "print('a'); x = " + t + "; return x == none;", v=vs, w=["'x'", "[]", "false"])
        S.append(dict(s, pol=5))
    conform(ctx, S, schedules=({}, {"gc": "every:3"}))
    if ctx.violations:
        return
    # recorded sequences: inside the range, spread over it, the same for the same seed
    recs, src = [], []
    R = pairs(ctx.n(26, 120)) + [(0, 1), (0, 2), (1, 7), (-3, 3), (-8, -1), (0, BIG), (-BIG - 1, BIG), (100, 108), (-1, 1), (0, 100), (-1000000, 1000000), (-BIG, 5), (0, 2 ** 31 - 1), (-7, 2 ** 31 - 8), (0, 65535), (5, 2 ** r.randint(17, 30))]
    N = ctx.n(400, 1500)
    for i, (lo, hi) in enumerate(R):
        a = r.randint(2, 2 ** 31 - 1)
        b = a ^ (1 << (i % 31)) if i % 2 == 0 else r.randint(2, 2 ** 31 - 1)       # seeds that differ in one bit, or in many
        src.append("fun seq(s) { random.seed(s); i = 0; while i < %d: { print(random.generate(%s, %s), ' '); i = i + 1; } }\nseq(%d); print('/'); seq(%d); print('/'); seq(%d);" % (N, lit(lo), lit(hi), a, b, a))
    src += ["random.seed(%d); i = 0; while i < %d: { print(random.generate(), ' '); i = i + 1; } print('/0/'); random.seed(%d); i = 0; while i < %d: { print(random.generate(none, none), ' '); i = i + 1; }" % (k, N, k, N) for k in (3, 4)]
    R += [(0, BIG)] * 2
    got = nj.run([{"src": s, "opts": {}} for s in src], "rel")
    for (lo, hi), s, g in zip(R, src, got):
        if g.get("st") != "ok":
            return ctx.violation("drawing random numbers failed: %s\n%s" % (str(g)[:500], s), {"src": s})
        d, o, again = [[int(x) for x in p.split()] for p in g["out"].split("/")]
        recs.append((lo, hi, d, again, o))
    for (lo, hi, d, a, o), v, s in zip(recs, judged(recs), src):
        ctx.count["compared"] += 1
        ctx.count["run"] += 1
        ctx.kinds["recorded sequence"] += 1
        ctx.distinct.add(s)
        for k, what in (("range", "a number outside of the range"), ("again", "other numbers after the same seed"), ("even", "numbers that aren't spread over the range"), ("differs", "the same numbers after another seed")):
            if not v[k]:
                bad = [x for x in d if not lo <= x <= hi]
                return ctx.violation("random.generate(%d, %d): %s: %s" % (lo, hi, what, bad[:5] or d[:20]), {"src": s, "draws": d[:50], "again": a[:50]})
    ctx.sample({"range": [str(recs[0][0]), str(recs[0][1])], "draws": [str(x) for x in recs[0][2][:6]]})


# ------------------------------------------------------------------ sockets
SIOCOUTQ = termios.TIOCOUTQ


def settled(c, end=False):
    """wait until the program's side has all that was sent (and the end)"""
    t = time.time()
    while time.time() - t < 10:
        left = struct.unpack("i", fcntl.ioctl(c, SIOCOUTQ, b"\0\0\0\0"))[0]
        state = c.getsockopt(socket.IPPROTO_TCP, socket.TCP_INFO, 1)[0]
        if (left == 0 and (not end or state != 4)) or state == 7:
            return
        time.sleep(.001)


class Peers:
    def __init__(self, n):
        self.c = [None] * n
        self.fate = ["none"] * n

    def act(self, a):
        if a[0] == "connect":
            s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            s.settimeout(10)
            try:
                s.connect((a[1], a[2]))
                s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                self.c[a[3] - 1] = s
                self.fate[a[3] - 1] = "in"
            except ConnectionRefusedError:
                s.close()
                self.fate[a[3] - 1] = "refused"
            return
        if a[0] == "dgram":
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            s.sendto(a[3], (a[1], a[2]))
            s.close()
            return
        c = self.c[a[1] - 1]
        if c is None:
            return
        try:
            if a[0] == "send":
                c.sendall(a[2])
                settled(c)
            else:
                c.shutdown(socket.SHUT_WR)
                settled(c, True)
        except OSError:
            pass
        if a[0] == "close":
            c.close()
            self.c[a[1] - 1] = None
            self.fate[a[1] - 1] = "closed"

    def finish(self):
        """what each peer has received by the end"""
        out = []
        for c, f in zip(self.c, self.fate):
            b = b""
            try:
                while c is not None:
                    x = c.recv(65536)
                    if not x:
                        break
                    b += x
            except OSError as e:
                f = "reset" if isinstance(e, ConnectionResetError) else "stuck"
            if c is not None:
                c.close()
            out.append((f, b))
        return out


def play(s, variant):
    """run the program; before each line of its input the peers act"""
    P = Peers(s["net"]["peers"])
    lines = s["stdin"].split("\n")[:-1]
    args = ["stdbuf", "-o0", os.path.join(nj.build(variant), "noja")] + s.get("args", []) + ["-i", s["src"]]
    env = nj.env(next(COUNT))
    if variant == "asan":
        env["ASAN_OPTIONS"] += ":verify_asan_link_order=0"
    p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=nj.workdir())
    out, t0, k = b"", time.time(), 0
    fd = p.stdout.fileno()
    hang = False
    try:
        while True:
            if not select.select([fd], [], [], max(0, 20 - (time.time() - t0)))[0]:
                hang = True
                break
            x = os.read(fd, 65536)
            if not x:
                break
            out += x
            while out.count(b"@") > k:
                for a in s["net"]["acts"][k] if k < len(s["net"]["acts"]) else ():
                    P.act(a)
                if k and not s["net"]["acts"][k:k + 1]:
                    time.sleep(.02)
                try:
                    p.stdin.write((lines[k] if k < len(lines) else "").encode() + b"\n")
                    p.stdin.flush()
                except OSError:
                    pass
                k += 1
        if hang:
            p.kill()
        p.stdin.close()
        err = p.stderr.read()
        p.wait(20)
    finally:
        p.kill()
        p.stdout.close(); p.stderr.close()
    fates = P.finish()
    d = lambda b: b.decode("utf-8", "surrogateescape")
    return None if hang else (p.returncode, d(out), d(err)), fates


def compare(s, e, variant):
    got, fates = play(s, variant)
    if got is None:
        return "the program does not end"
    bad = verdict(e, got)
    if bad:
        return bad
    for i, ((st, want), (f, b)) in enumerate(zip(e.get("peers", []), fates)):
        if (st == "refused") != (f == "refused"):
            return "peer %d: the connection was %s" % (i + 1, "accepted although nothing listens" if st == "refused" else f)
        if st in ("?", "refused", "none", "waits") or f == "closed":
            continue
        if f == "stuck" or b.hex() != want:
            return "peer %d received %r instead of %r (%s)" % (i + 1, b[:200], bytes.fromhex(want)[:200], f)
    return None


HELP = """fun show(b, n) { i = 0; while i < n: { print(b[i], ','); i = i + 1; } print(';'); }
fun got(c, b, n) { k, e = net.recv(c, b, n); print('recv ', k, ' ', e, ' '); if k != none: show(b, k); return k; }
fun put(c, t, n) { k, e = net.send(c, buffer.fromString(t), n); print('send ', k, ' ', e, ';'); return k; }
fun wait() { print('@'); return input(); }
fun take(s) { c, a, p = net.accept(s); if type(c) != int: print('accept ', c, a); return c; }
"""


class Nets:
    """random programs that talk to peers"""
    def __init__(self, r, k):
        self.r = r
        self.ip = "127.%d.%d.%d" % (r.randint(1, 250), r.randint(0, 250), r.randint(1, 250))
        self.port = 20000 + k % 6000
        self.n = 0
        self.acts, self.now = [], []

    def data(self, n=None):
        r = self.r
        n = r.choice([0, 1, 2, 3, 7, 20, 60]) if n is None else n
        return bytes(r.choice([0, 10, 65, 255, r.randrange(256)]) for _ in range(n))

    def text(self):
        return "'%s'" % "".join(self.r.choice("abc xyz\u00e9\u20ac") for _ in range(self.r.choice([0, 1, 3, 12, 40])))

    def wait(self):
        self.acts.append(self.now)
        self.now = []
        return "wait();"

    def scenario(self, src):
        if self.now:
            src += self.wait()
        return {"src": HELP + src + " return 1;", "stdin": "go\n" * len(self.acts), "pol": 2, "net": {"peers": max(1, self.n), "acts": self.acts}}

    def listener(self, var="s", reuse="true", ip=None, port=None):
        addr = ip or self.r.choice([self.ip, self.ip, self.ip, None])
        return "%s = net.socket(net.AF_INET, net.SOCK_STREAM, 0, %s); print(net.bind(%s, net.AF_INET, %d%s), ','); print(net.listen(%s, %d), ';');" % (var, reuse, var, port or self.port, ", '%s'" % addr if addr else "", var, self.r.choice([4, 8, 100]))

    def connect(self, ip=None, port=None):
        self.n += 1
        self.now.append(["connect", ip or self.ip, port or self.port, self.n])
        return self.n

    def conversation(self):
        r = self.r
        src = self.listener()
        open_, shut, accepted = [], set(), {}
        body = "B = buffer.new(%d);" % r.choice([1, 4, 16, 64, 100, 300, 3000, 5000, 9000, 20000, 70000])
        size = int(body.split("(")[1].split(")")[0])
        left = {}                   # bytes (and ends, as 1) that have arrived and weren't taken
        waiting = []
        def pause():
            for x in self.now:
                if x[0] in ("send", "shut", "close"):
                    left[x[1]] = left.get(x[1], 0) + (len(x[2]) if x[0] == "send" else 1)
            return self.wait()
        for _ in range(r.randint(4, 24)):
            k = r.random()
            talk = [i for i in open_ if i not in shut]
            if k < .16 and self.n < 4 or not self.n:
                i = self.connect(); open_.append(i); waiting.append(i)
            elif k < .36 and talk:
                i = r.choice([i for i in talk if i in accepted] or talk) if r.random() < .7 else r.choice(talk)
                self.now.append(["send", i, self.data()])
            elif k < .41 and talk:
                i = r.choice(talk)
                shut.add(i)
                self.now.append([r.choice(["shut", "shut", "close"]), i])
            elif k < .55 and self.now:
                body += pause()
            elif k < .68 and waiting:
                if self.now:
                    body += pause()
                i = waiting.pop(0)
                accepted[i] = "c%d" % i
                body += "c%d = take(s);" % i
            elif k < .86 and accepted:
                if self.now and r.random() < .7:
                    body += pause()
                i = r.choice([i for i in accepted if left.get(i)] or list(accepted))
                if not left.get(i) and r.random() < .97:
                    continue
                n = r.choice(["none", "none", "none", "1", "2", "5", "100", "5000", "0", "4294967297", "-1", "-4294967295"])
                m = size if n == "none" else max(0, min(size, int(n)))
                left[i] = max(1 if i in shut and i not in [x[1] for x in self.now] else 0, left.get(i, 0) - m)
                body += "got(c%d, B, %s);" % (i, n)
            elif k < .95 and accepted:
                i = r.choice(list(accepted))
                body += "put(c%d, %s, %s);" % (i, self.text(), r.choice(["none", "none", "0", "1", "3", "1000", "4294967298", "-1", "-9223372036854775807"]))
            elif accepted and r.random() < .5:
                i = r.choice(list(accepted))
                body += "print(net.close(c%d), ';');" % i
                if r.random() < .7:
                    del accepted[i]
            if r.random() < .1:
                body += r.choice(["x = [1, 2]; y = {a: x};", "print(count(B));", "L = []; i = 0; while i < 30: { L[i] = [i]; i = i + 1; }"])
        if r.random() < .5:
            body += self.wait()
            for i in list(accepted):
                body += "got(c%d, B, none);" % i if r.random() < .5 and i in shut else "put(c%d, 'bye', none);" % i
        if r.random() < .3:
            body += "none.x.y;"
        return self.scenario(src + body)

    def server(self):
        """answers each peer until it ends"""
        r = self.r
        src = self.listener()
        peers = [self.connect() for _ in range(r.randint(1, 4))]
        todo = peers * r.randint(1, 4)
        r.shuffle(todo)
        for i in todo:
            self.now.append(["send", i, self.data()])
        for i in r.sample(peers, len(peers)):
            self.now.append(["shut", i])
        src += self.wait()
        step = r.choice([1, 3, 16, 50])
        src += r.choice(["j = 0; while j < %d: { c = take(s); B = buffer.new(%d); k = 1; while k > 0: { k = net.recv(c, B); if k > 0: { print(net.send(c, B, k), ' '); print(net.send(c, B, 1), ' '); } } print(net.close(c), ';'); j = j + 1; }",
                         "L = []; j = 0; while j < %d: { L[j] = take(s); j = j + 1; } B = buffer.new(%d); j = 0; while j < count(L): { k = 1; while k > 0: { k = got(L[j], B, none); } put(L[j], 'end', none); j = j + 1; }",
                         "j = 0; while j < %d: { c = take(s); B = buffer.sliceUp(buffer.new(80), 9, %d); k = net.recv(c, B, 7); print(k, ' '); print(net.send(c, B), ' '); show(B, count(B)); j = j + 1; }"]) % (len(peers), step)
        return self.scenario(src)

    def datagrams(self):
        r = self.r
        src = "s = net.socket(net.AF_INET, net.SOCK_DGRAM, 0%s); print(net.bind(s, net.AF_INET, %d, '%s'), ';'); B = buffer.new(%d);" % (r.choice(["", ", true", ", false"]), self.port, self.ip, r.choice([0, 1, 5, 30, 100, 3000]))
        left = 0
        for _ in range(r.randint(1, 5)):
            for _ in range(r.randint(1, 4)):
                self.now.append(["dgram", r.choice([self.ip] * 4 + ["127.255.1.1"]), r.choice([self.port] * 6 + [self.port + 6000]), self.data()])
                left += self.now[-1][1] == self.ip and self.now[-1][2] == self.port
            src += self.wait()
            for _ in range(r.randint(0, left)):
                src += "got(s, B, %s);" % r.choice(["none", "none", "0", "1", "4", "1000", "-3"])
                left -= 1
        src += "put(s, 'x', none); print(net.listen(s, 5)); x, y = net.accept(s); print(x, y); print(net.close(s), ','); print(net.close(s)); got(s, B, 1);"
        return self.scenario(src)

    def rivals(self):
        """several sockets for the same address"""
        r = self.r
        src, n = "B = buffer.new(9);", r.randint(2, 4)
        share = r.random() < .6
        for i in range(n):
            src += "v%d = net.socket(net.AF_INET, net.%s, 0%s);" % (i, "SOCK_STREAM" if r.random() < .8 else "SOCK_DGRAM", ", true" if share or r.random() < .5 else r.choice(["", ", false", ", none"]))
        todo = ["print(net.bind(v%d, net.AF_INET, %d, '%s'), ' ');" % (i, self.port, r.choice([self.ip] * 5 + ["0.0.0.0", "127.0.0.1"])) for i in range(n)]
        r.shuffle(todo)
        todo += ["print(net.listen(v%d, 5), ' ');" % r.randrange(n) for _ in range(r.randint(1, 3))]
        if r.random() < .4:
            todo.insert(r.randint(1, n), "print(net.close(v%d), ' ');" % r.randrange(n))
        src += "".join(todo)
        if r.random() < .5:
            self.connect()
            src += self.wait() + "".join("x, y = net.accept(v%d); print(type(x), y == none, ' ');" % i for i in range(1))
        return self.scenario(src)

    def misuse(self):
        """calls at wrong times and with unusual values"""
        r = self.r
        src = "B = buffer.new(4);"
        names = []
        for _ in range(r.randint(3, 12)):
            k = r.random()
            if k < .25 or not names:
                v = "v%d" % len(names)
                src += "%s = net.socket(net.AF_INET, net.%s, 0, %s);" % (v, r.choice(["SOCK_STREAM", "SOCK_STREAM", "SOCK_DGRAM"]), r.choice(["true", "false", "none"]))
                names.append(v)
                continue
            v = r.choice(names)
            src += r.choice(["print(net.bind(%s, net.AF_INET, %d, '%s'), ';');" % (v, r.choice([self.port] * 5 + [self.port + 6000]), r.choice([self.ip] * 4 + ["0.0.0.0", "127.0.0.1"])),
                             "print(net.listen(%s, 5), ';');" % v, "got(%s, B, %s);" % (v, r.choice(["none", "2", "0"])), "put(%s, 'ab', %s);" % (v, r.choice(["none", "1", "0"])), "print(net.close(%s), ';');" % v, "x, y = net.accept(%s); print(x, y, ';');" % v,
                             "x, y = net.bind(%s, net.AF_INET, %s, %s); print(x, y, ';');" % (v, r.choice(["0", "-1", "65536", "70000", "4294967296", str(BIG), "-9223372036854775807"]), r.choice(["none", "'127.0.0.1'"])),
                             "x, y = net.bind(%s, net.AF_INET, %d, '%s'); print(x, y, ';');" % (v, self.port, r.choice(["", "nonsense", "1.2.3", "1.2.3.4.5", "256.1.1.1", "127.0.0.01", "127..0.1", "8.8.8.8", "127.0.0.1 ", "0x7f.0.0.1"])),
                             "x, y = net.bind(%s, %s, %d, '127.0.0.1'); print(x, y, ';');" % (v, r.choice(["1", "10", "0", "-2"]), self.port),
                             "x, y = net.socket(%s, 1, 0); print(x, y, ';');" % r.choice(["99", "-1"])])
            if r.random() < .15:
                self.connect()
                src += self.wait()
        return self.scenario(src)


@check("C42")
def sockets(ctx):
    r = ctx.rng
    ctx.n(1, 1)
    S = []
    base = r.randrange(3000)
    for k in range(ctx.n(300, 2700)):
        x = Nets(r, base + k)
        S.append([x.conversation, x.conversation, x.server, x.datagrams, x.misuse, x.rivals][k % 6]())
    # a peer that went away
    for k in range(ctx.n(6, 30)):
        x = Nets(r, base + k)
        src = x.listener()
        i = x.connect(); x.now.append(["close", i])
        src += x.wait() + "c = take(s); B = buffer.new(3);" + r.choice(["", "got(c, B, none);"]) + "put(c, 'one', none);"
        x.acts.append([])
        src += "wait(); put(c, 'two', none); put(c, 'three', 2); print(net.close(c), 'end');"
        S.append(x.scenario(src))
    pairs = [(s, e) for s, e in spec.explore(S)]
    # arguments of every kind
    A = []
    vs = some(r, [v for v in VALUES if v not in ("0", "1", "-7", "9223372036854775807")], ctx.n(9, 24))
    for t in ("net.socket(<v>, 1, 0)", "net.socket(2, <v>, 0)", "net.socket(2, 1, <v>)", "net.socket(2, 1, 0, 'x')", "net.socket()", "net.socket(2, 1)", "net.bind(<v>, 2, 3)", "net.bind(900, <v>, 3)", "net.bind(900, 2, <v>)", "net.bind(900, 2, 3, 5)", "net.listen(<v>, 1)", "net.listen(900, <v>)", "net.listen(900)",
              "net.accept(<v>)", "net.accept()", "net.recv(<v>, B)", "net.recv(900, [], 1)", "net.recv(900, B, 'x')", "net.send(<v>, B)", "net.send(900, 'text')", "net.send(900, B, 1.5)", "net.close(<v>)", "net.close()", "net.recv(900, B, -1)", "net.send(900, B, -1)", "net.send(900, B, -4294967295)", "net.recv(900, B, -4294967295)"):
        A.append(tpl(DECL + "print('a'); x, y = " + t + "; return x, y;", v=vs))
    A.append(tpl("return net.AF_INET, net.SOCK_STREAM, net.SOCK_DGRAM, type(net.<f>), net.nosuch;", f=["socket", "bind", "listen", "accept", "recv", "send", "close"]))
    conform(ctx, A)
    if ctx.violations:
        return
    use = []
    for s, e in pairs:
        ctx.count["run"] += 1
        if e["st"] not in ("done", "err"):
            ctx.count["noclaim"] += 1
            continue
        use.append((s, e))
    nj.build("rel"); nj.build("asan")

    found = []

    def one(k):
        if len(found) > 2:
            return None
        s, e = use[k]
        s = dict(s, args=[[], ["-H", "1100000"]][k // 2 % 2])
        v = "asan" if k % 3 == 1 else "rel"
        bad = compare(s, e, v)
        if bad:
            bad = compare(s, e, v)
        if bad:
            found.append(k)
        return bad
    with ThreadPoolExecutor(12) as ex:
        for (s, e), bad in zip(use, ex.map(one, range(len(use)))):
            ctx.count["compared"] += 1
            ctx.kinds["talk: " + (e["st"] if e["st"] == "done" else "error " + e["cat"])] += 1
            ctx.distinct.add(s["src"])
            if bad and len(ctx.violations) < 3:
                ctx.violation("%s\n%s\n%s" % (bad, s["src"][len(HELP):], s["net"]["acts"]), {"src": s["src"], "stdin": s["stdin"], "acts": repr(s["net"]["acts"]), "expected": {k: e[k] for k in ("st", "cat", "msg", "out")}, "peers": e.get("peers")})
    for s, e in use[3:200:60]:
        ctx.sample({"src": s["src"][len(HELP):][:300], "acts": repr(s["net"]["acts"])[:300], "out": e["out"][:200]})
